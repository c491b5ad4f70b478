//! Stand-in.
pub fn unparse(_f: &syn::File) -> String { unimplemented!() }
