//! Declares the `serde` helper attribute so that witness types can carry serde attributes without
//! deriving serde's implementations.
#[proc_macro_derive(Attrs, attributes(serde))]
pub fn attrs(_: proc_macro::TokenStream) -> proc_macro::TokenStream {
    Default::default()
}
