//! Type-level stand-in for the ssz_rs derives: emits trait impls with unreachable bodies.
use proc_macro::{Delimiter, TokenStream, TokenTree};

/// (name, generics declaration without defaults, generic argument list)
fn header(input: TokenStream) -> (String, String, String) {
    let mut it = input.into_iter().peekable();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            let s = i.to_string();
            if s == "struct" || s == "enum" {
                break;
            }
        }
    }
    let name = it.next().unwrap().to_string();
    let mut decl = String::new();
    let mut args = String::new();
    if matches!(it.peek(), Some(TokenTree::Punct(p)) if p.as_char() == '<') {
        it.next();
        let mut depth = 1;
        let mut params: Vec<Vec<TokenTree>> = vec![vec![]];
        for t in it {
            if let TokenTree::Punct(p) = &t {
                match p.as_char() {
                    '<' => depth += 1,
                    '>' => {
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    ',' if depth == 1 => {
                        params.push(vec![]);
                        continue;
                    }
                    _ => {}
                }
            }
            if let TokenTree::Group(g) = &t {
                if g.delimiter() == Delimiter::Brace && depth == 0 {
                    break;
                }
            }
            params.last_mut().unwrap().push(t);
        }
        for p in params.into_iter().filter(|p| !p.is_empty()) {
            let s: TokenStream = p.iter().cloned().collect();
            decl += &format!("{s},");
            let first = p[0].to_string();
            if first == "const" {
                args += &format!("{},", p[1]);
            } else if first == "'" {
                args += &format!("'{},", p[1]);
            } else {
                args += &format!("{first},");
            }
        }
    }
    (name, decl, args)
}
fn gi(h: &(String, String, String)) -> String {
    format!("impl<{}> ::ssz_rs::GeneralizedIndexable for {}<{}> {{}}", h.1, h.0, h.2)
}
fn pr(h: &(String, String, String)) -> String {
    format!("impl<{}> ::ssz_rs::Prove for {}<{}> {{}}", h.1, h.0, h.2)
}
fn ser(h: &(String, String, String)) -> String {
    format!(
        "impl<{0}> ::ssz_rs::Serializable for {1}<{2}> {{}} impl<{0}> ::ssz_rs::Serialize for {1}<{2}> {{}} impl<{0}> ::ssz_rs::Deserialize for {1}<{2}> {{}}",
        h.1, h.0, h.2
    )
}
fn htr(h: &(String, String, String)) -> String {
    format!("impl<{}> ::ssz_rs::HashTreeRoot for {}<{}> {{}}", h.1, h.0, h.2)
}
#[proc_macro_derive(GeneralizedIndexable, attributes(ssz))]
pub fn d1(i: TokenStream) -> TokenStream {
    gi(&header(i)).parse().unwrap()
}
#[proc_macro_derive(Prove, attributes(ssz))]
pub fn d2(i: TokenStream) -> TokenStream {
    pr(&header(i)).parse().unwrap()
}
#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn d3(i: TokenStream) -> TokenStream {
    ser(&header(i)).parse().unwrap()
}
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn d4(i: TokenStream) -> TokenStream {
    htr(&header(i)).parse().unwrap()
}
#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn d5(i: TokenStream) -> TokenStream {
    let h = header(i);
    format!(
        "{}{}{}{} impl<{}> ::ssz_rs::SimpleSerialize for {}<{}> {{}}",
        gi(&h), pr(&h), ser(&h), htr(&h), h.1, h.0, h.2
    )
    .parse()
    .unwrap()
}
