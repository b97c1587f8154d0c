//! `#[derive(Builder)]` that generates nothing (the repository derives it without using the builder).
use proc_macro::TokenStream;
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(_item: TokenStream) -> TokenStream {
    TokenStream::new()
}
