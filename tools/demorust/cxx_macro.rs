// Stand-in for cxx's macro: the bridge module is replaced by a recording mock.
extern crate proc_macro;
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn bridge(_attr: TokenStream, _item: TokenStream) -> TokenStream {
    "mod ffi { include!(env!(\"MOCK_FFI\")); }".parse().unwrap()
}
