//! Stand-ins for the sails attribute macros: they leave the annotated item exactly as it is
//! (the real macros only add message dispatch around it).  `service` additionally appends a
//! `notify_on` method to the type, as the real macro does.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree, Delimiter};

#[proc_macro_attribute]
pub fn service(_attr: TokenStream, item: TokenStream) -> TokenStream {
    // append `fn notify_on` to the impl body
    let mut out: Vec<TokenTree> = Vec::new();
    for tt in item {
        match tt {
            TokenTree::Group(ref g) if g.delimiter() == Delimiter::Brace => {
                let mut inner: TokenStream = g.stream();
                let extra: TokenStream =
                    "fn notify_on<E: core::fmt::Debug>(&mut self, event: E) -> Result<(), ()> { sails_rs::gstd::record_event(alloc::format!(\"{:?}\", event)); Ok(()) }".parse().unwrap();
                inner.extend(extra);
                out.push(TokenTree::Group(proc_macro::Group::new(Delimiter::Brace, inner)));
            }
            other => out.push(other),
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn program(_attr: TokenStream, item: TokenStream) -> TokenStream { item }
