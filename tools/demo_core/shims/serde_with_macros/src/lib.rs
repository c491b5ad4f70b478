//! Stand-in for `#[serde_as]`: turns `#[serde_as(as = ..)]` on a field into `#[serde(with = "serde_with::Any")]`-style
//! stubs so that the item type-checks. Field order, names and types are untouched.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
fn strip(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    let first = g.stream().into_iter().next().map(|t| t.to_string()).unwrap_or_default();
                    if g.delimiter() == Delimiter::Bracket && first == "serde_as" {
                        it.next();
                        let r: TokenStream = "#[serde(with = \"::serde_with::any\")]".parse().unwrap();
                        out.extend(r);
                        continue;
                    }
                }
            }
        }
        match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n))
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}
#[proc_macro_attribute]
pub fn serde_as(_a: TokenStream, i: TokenStream) -> TokenStream { strip(i) }
