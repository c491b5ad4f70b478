//! Stand-in: native async fn in traits is used instead.
#[proc_macro_attribute]
pub fn async_trait(_a: proc_macro::TokenStream, i: proc_macro::TokenStream) -> proc_macro::TokenStream { i }
