//! `#[async_trait]` for the `tonic` stand-in: the compiler supports `async fn` in traits
//! natively, so the attribute leaves its item unchanged.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn async_trait(_args: TokenStream, item: TokenStream) -> TokenStream {
    item
}
