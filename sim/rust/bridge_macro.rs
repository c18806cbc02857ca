// Stand-in for cxx's attribute macro: replaces the body of the bridge module
// by the code build.py generated from that same body.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn bridge(_args: TokenStream, item: TokenStream) -> TokenStream {
    let path = std::env::var("SIM_BRIDGE_RS").expect("SIM_BRIDGE_RS");
    let body: TokenStream = format!("{{ include!({:?}); }}", path).parse().unwrap();
    let mut out: Vec<TokenTree> = Vec::new();
    for t in item {
        match &t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => out.extend(body.clone()),
            _ => out.push(t),
        }
    }
    out.into_iter().collect()
}
