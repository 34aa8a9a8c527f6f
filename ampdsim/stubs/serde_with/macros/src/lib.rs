use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, DeriveInput};

#[proc_macro_derive(SerializeDisplay)]
pub fn ser(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let (g, tg, w) = d.generics.split_for_impl();
    quote! { impl #g ::serde::Serialize for #n #tg #w {
        fn serialize<S: ::serde::Serializer>(&self, s: S) -> ::core::result::Result<S::Ok, S::Error> { s.collect_str(self) }
    } }
    .into()
}

#[proc_macro_derive(DeserializeFromStr)]
pub fn de(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    quote! { impl<'de> ::serde::Deserialize<'de> for #n {
        fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> ::core::result::Result<Self, D::Error> {
            <::std::string::String as ::serde::Deserialize>::deserialize(d)?.parse().map_err(::serde::de::Error::custom)
        }
    } }
    .into()
}
