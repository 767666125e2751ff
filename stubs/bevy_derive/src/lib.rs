//! `#[derive(Component)]` of the analysis stand-in for bevy: adds nothing.
use proc_macro::TokenStream;
#[proc_macro_derive(Component, attributes(require, component))]
pub fn component(_item: TokenStream) -> TokenStream {
    TokenStream::new()
}
