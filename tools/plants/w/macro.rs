//! `#[wasm_bindgen]` without the glue: the item stays as it is, and a function
//! with a JavaScript name can also be called by that name.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, item: TokenStream) -> TokenStream {
    let a: Vec<String> = attr.into_iter().map(|t| t.to_string()).collect();
    let mut name = None;
    for w in a.windows(3) {
        if w[0] == "js_name" && w[1] == "=" {
            name = Some(w[2].trim_matches('"').to_string());
        }
    }
    let mut function = None;
    let mut prev = String::new();
    for t in item.clone() {
        match t {
            TokenTree::Ident(i) => {
                if prev == "fn" {
                    function = Some(i.to_string());
                    break;
                }
                prev = i.to_string();
            }
            TokenTree::Group(g) if g.delimiter() == proc_macro::Delimiter::Brace => break,
            _ => {}
        }
    }
    let mut out = item;
    if let (Some(n), Some(f)) = (name, function) {
        if n != f {
            out.extend(
                format!("#[allow(unused_imports)] pub use self::{} as {};", f, n).parse::<TokenStream>().unwrap(),
            );
        }
    }
    out
}
