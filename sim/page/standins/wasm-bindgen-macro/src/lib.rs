use proc_macro::TokenStream;

/// The real attribute adds the glue for WebAssembly; natively the item itself is all there is.
#[proc_macro_attribute]
pub fn wasm_bindgen(_args: TokenStream, item: TokenStream) -> TokenStream {
    item
}
