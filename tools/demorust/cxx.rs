pub use cxx_macro::bridge;
use std::ops::Deref;
use std::pin::Pin;

pub struct UniquePtr<T>(pub Box<T>);
impl<T: Unpin> UniquePtr<T> {
    pub fn new(v: T) -> Self {
        UniquePtr(Box::new(v))
    }
    pub fn pin_mut(&mut self) -> Pin<&mut T> {
        Pin::new(&mut *self.0)
    }
    pub fn as_mut(&mut self) -> Option<Pin<&mut T>> {
        Some(Pin::new(&mut *self.0))
    }
    pub fn as_ref(&self) -> Option<&T> {
        Some(&self.0)
    }
}
impl<T> Deref for UniquePtr<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
#[derive(Debug)]
pub struct Exception(pub String);
impl Exception {
    pub fn what(&self) -> &str {
        &self.0
    }
}
impl std::fmt::Display for Exception {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Exception {}
