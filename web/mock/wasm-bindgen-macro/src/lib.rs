//! Stand-in for #[wasm_bindgen]: items stay as they are; imported functions get bodies that record the call.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

/// Drops nested #[wasm_bindgen(..)] attributes (on fields and methods).
fn strip(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    let name = g.stream().into_iter().next().map(|x| x.to_string());
                    if g.delimiter() == Delimiter::Bracket && name.as_deref() == Some("wasm_bindgen") {
                        it.next();
                        continue;
                    }
                }
            }
        }
        out.push(match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        });
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream {
    let item = strip(item);
    let tokens: Vec<TokenTree> = item.clone().into_iter().collect();
    let ext = tokens.iter().position(|t| t.to_string() == "extern");
    let body = tokens.last();
    match (ext, body) {
        (Some(e), Some(TokenTree::Group(g))) if e + 2 >= tokens.len() - 1 && g.delimiter() == Delimiter::Brace && !tokens.iter().any(|t| t.to_string() == "fn") => {
            // extern "C" { ...; ...; }
            let mut out = TokenStream::new();
            let mut head: Vec<TokenTree> = vec![];
            for t in g.stream() {
                if t.to_string() == ";" {
                    let ret = head.windows(2).any(|w| w[0].to_string() == "-" && w[1].to_string() == ">");
                    let text: TokenStream = head.drain(..).collect();
                    let b = if ret { "{ unimplemented!(\"imported function\") }" } else { "{ ::wasm_bindgen::imported_call() }" };
                    out.extend(text);
                    out.extend(b.parse::<TokenStream>().unwrap());
                } else {
                    head.push(t);
                }
            }
            let allow: TokenStream = "#[allow(unused_variables)]".parse().unwrap();
            // one allow per function
            let mut full = TokenStream::new();
            let mut start = true;
            for t in out {
                if start {
                    full.extend(allow.clone());
                    start = false;
                }
                if let TokenTree::Group(g) = &t {
                    if g.delimiter() == Delimiter::Brace {
                        start = true;
                    }
                }
                full.extend([t]);
            }
            full
        }
        _ => item,
    }
}
