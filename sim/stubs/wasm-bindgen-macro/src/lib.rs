extern crate proc_macro;
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

/// Leaves out `#[wasm_bindgen ...]` inside the item (fields cannot carry attribute macros).
fn strip(ts: TokenStream) -> TokenStream {
    let mut out = Vec::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match (&t, it.peek()) {
            (TokenTree::Punct(p), Some(TokenTree::Group(g)))
                if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket =>
            {
                let mine = matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(i)) if i.to_string() == "wasm_bindgen");
                if mine {
                    it.next();
                } else {
                    out.push(t);
                }
            }
            (TokenTree::Group(g), _) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            _ => out.push(t),
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
