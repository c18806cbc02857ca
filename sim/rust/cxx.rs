// Stand-in for the cxx crate: the types lib.rs sees, and a byte format in
// which the generated code of both sides exchanges values.
pub use bridge_macro::bridge;
use std::fmt;
use std::ops::Deref;
use std::pin::Pin;

pub struct Exception {
    what: Box<str>,
}
impl Exception {
    pub fn what(&self) -> &str {
        &self.what
    }
    #[doc(hidden)]
    pub fn __new(s: String) -> Exception {
        Exception { what: s.into_boxed_str() }
    }
}
impl fmt::Display for Exception {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.what)
    }
}
impl fmt::Debug for Exception {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Exception {{ what: {:?} }}", self.what)
    }
}
impl std::error::Error for Exception {}

pub trait Target {
    /// # Safety
    /// `p` must come from the C++ side and be released once.
    unsafe fn __release(p: *mut Self);
}
pub struct UniquePtr<T: Target> {
    p: *mut T,
}
impl<T: Target> UniquePtr<T> {
    pub fn null() -> Self {
        UniquePtr { p: std::ptr::null_mut() }
    }
    #[doc(hidden)]
    pub fn __from(p: *mut T) -> Self {
        UniquePtr { p }
    }
    pub fn is_null(&self) -> bool {
        self.p.is_null()
    }
    pub fn as_ref(&self) -> Option<&T> {
        unsafe { self.p.as_ref() }
    }
    pub fn as_mut(&mut self) -> Option<Pin<&mut T>> {
        unsafe { self.p.as_mut().map(|r| Pin::new_unchecked(r)) }
    }
    pub fn pin_mut(&mut self) -> Pin<&mut T> {
        self.as_mut().expect("called pin_mut on a null UniquePtr")
    }
    pub fn as_ptr(&self) -> *const T {
        self.p
    }
}
impl<T: Target> Deref for UniquePtr<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.as_ref().expect("called deref on a null UniquePtr")
    }
}
impl<T: Target> Drop for UniquePtr<T> {
    fn drop(&mut self) {
        if !self.p.is_null() {
            unsafe { T::__release(self.p) }
        }
    }
}
unsafe impl<T: Target + Send> Send for UniquePtr<T> {}
unsafe impl<T: Target + Sync> Sync for UniquePtr<T> {}

#[doc(hidden)]
pub mod wire {
    pub trait Wire: Sized {
        fn put(&self, o: &mut Vec<u8>);
        fn get(i: &mut &[u8]) -> Self;
    }
    macro_rules! num {
        ($($t:ty)*) => {$(
            impl Wire for $t {
                fn put(&self, o: &mut Vec<u8>) {
                    o.extend_from_slice(&self.to_ne_bytes());
                }
                fn get(i: &mut &[u8]) -> Self {
                    let (a, b) = i.split_at(std::mem::size_of::<$t>());
                    *i = b;
                    <$t>::from_ne_bytes(a.try_into().unwrap())
                }
            }
        )*};
    }
    num! { f32 f64 u8 i8 u16 i16 u32 i32 u64 i64 usize isize }
    impl Wire for bool {
        fn put(&self, o: &mut Vec<u8>) {
            o.push(*self as u8);
        }
        fn get(i: &mut &[u8]) -> Self {
            u8::get(i) != 0
        }
    }
    impl Wire for String {
        fn put(&self, o: &mut Vec<u8>) {
            self.len().put(o);
            o.extend_from_slice(self.as_bytes());
        }
        fn get(i: &mut &[u8]) -> Self {
            let n = usize::get(i);
            let (a, b) = i.split_at(n);
            *i = b;
            String::from_utf8_lossy(a).into_owned()
        }
    }
    impl<T: Wire> Wire for Vec<T> {
        fn put(&self, o: &mut Vec<u8>) {
            self.len().put(o);
            for x in self {
                x.put(o);
            }
        }
        fn get(i: &mut &[u8]) -> Self {
            let n = usize::get(i);
            (0..n).map(|_| T::get(i)).collect()
        }
    }
    impl<T: Wire, const N: usize> Wire for [T; N] {
        fn put(&self, o: &mut Vec<u8>) {
            for x in self {
                x.put(o);
            }
        }
        fn get(i: &mut &[u8]) -> Self {
            std::array::from_fn(|_| T::get(i))
        }
    }

    #[repr(C)]
    pub struct Reply {
        data: *mut u8,
        len: usize,
        status: i32,
    }
    pub type Call = unsafe extern "C" fn(*const u8, *const u8, usize, *mut Reply);
    extern "C" {
        fn simbridge_free(p: *mut u8);
    }
    /// Ok: the encoded result; Err: the message of the exception.
    ///
    /// # Safety
    /// `f` must be a generated entry point and `this` its receiver.
    pub unsafe fn call(f: Call, this: *const u8, args: &[u8]) -> Result<Vec<u8>, String> {
        let mut r = Reply { data: std::ptr::null_mut(), len: 0, status: 0 };
        f(this, args.as_ptr(), args.len(), &mut r);
        let v = if r.data.is_null() {
            Vec::new()
        } else {
            let v = std::slice::from_raw_parts(r.data, r.len).to_vec();
            simbridge_free(r.data);
            v
        };
        if r.status == 0 {
            Ok(v)
        } else {
            Err(String::from_utf8_lossy(&v).into_owned())
        }
    }
}
