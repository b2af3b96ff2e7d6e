use proc_macro::TokenStream;

#[proc_macro_derive(Tsify, attributes(tsify, serde))]
pub fn derive_tsify(_item: TokenStream) -> TokenStream {
    TokenStream::new()
}
