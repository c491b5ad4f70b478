//! Stand-in for `#[serde_as]`: like the real one, turns `#[serde_as(as = "T")]` on a field into `#[serde(with = "::serde_with::As::<T>")]`
//! (`serialize_as` and `deserialize_as` likewise), `_` in T meaning `::serde_with::Same`.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
fn strip(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = it.peek().cloned() {
                    let first = g.stream().into_iter().next().map(|t| t.to_string()).unwrap_or_default();
                    if g.delimiter() == Delimiter::Bracket && first == "serde_as" {
                        it.next();
                        let args: Vec<TokenTree> = match g.stream().into_iter().nth(1) { Some(TokenTree::Group(a)) => a.stream().into_iter().collect(), _ => vec![] };
                        for w in args.windows(3) {
                            let (k, v) = (w[0].to_string(), w[2].to_string());
                            let v = v.trim_matches('"');
                            if w[1].to_string() != "=" { continue; }
                            let ty = same(v.parse().unwrap()).to_string();
                            let a = match k.as_str() {
                                "as" => format!("#[serde(with = \"::serde_with::As::<{ty}>\")]"),
                                "serialize_as" => format!("#[serde(serialize_with = \"::serde_with::As::<{ty}>::serialize\")]"),
                                "deserialize_as" => format!("#[serde(deserialize_with = \"::serde_with::As::<{ty}>::deserialize\")]"),
                                _ => continue,
                            };
                            out.extend(a.parse::<TokenStream>().unwrap());
                        }
                        continue;
                    }
                }
            }
        }
        match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n))
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}
fn same(ts: TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Ident(ref i) if i.to_string() == "_" => out.extend("::serde_with::Same".parse::<TokenStream>().unwrap()),
            TokenTree::Punct(ref p) if p.as_char() == '_' => out.extend("::serde_with::Same".parse::<TokenStream>().unwrap()),
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), same(g.stream())))]),
            t => out.extend([t]),
        }
    }
    out
}
#[proc_macro_attribute]
pub fn serde_as(_a: TokenStream, i: TokenStream) -> TokenStream { strip(i) }
