//! pyo3's attributes as markers: the items stay what they are in Rust, without the wrappers for CPython.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

const OURS: [&str; 10] = ["new", "pyo3", "getter", "setter", "staticmethod", "classmethod", "classattr", "args", "pass_module", "text_signature"];
fn strip(t: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    for x in t {
        let TokenTree::Group(g) = &x else {
            out.push(x);
            continue;
        };
        if g.delimiter() == Delimiter::Bracket && matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '#') {
            if let Some(TokenTree::Ident(i)) = g.stream().into_iter().next() {
                if OURS.contains(&i.to_string().as_str()) {
                    out.pop();
                    continue;
                }
            }
        }
        if g.delimiter() == Delimiter::Brace || g.delimiter() == Delimiter::Parenthesis {
            let mut n = Group::new(g.delimiter(), strip(g.stream()));
            n.set_span(g.span());
            out.push(TokenTree::Group(n));
        } else {
            out.push(x);
        }
    }
    out.into_iter().collect()
}
macro_rules! marker {
    ($($n:ident)*) => { $(#[proc_macro_attribute]
        pub fn $n(_: TokenStream, item: TokenStream) -> TokenStream {
            strip(item)
        })* };
}
marker!(pyclass pymethods pyfunction pymodule);
