// `#[marine]` without the wasm ABI: the item itself, made public so that the harness can call it.
use proc_macro::{Ident, Span, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn marine(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut done = false;
    for t in item {
        if !done { if let TokenTree::Ident(i) = &t {
            if i.to_string() == "fn" { out.push(TokenTree::Ident(Ident::new("pub", Span::call_site()))); }
            done = true;
        } }
        out.push(t);
    }
    out.into_iter().collect()
}
