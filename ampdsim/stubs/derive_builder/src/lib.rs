//! `#[derive(Builder)]` with derive_builder's defaults: setters by mutable reference, `build` by
//! shared reference, an error when a field was not set.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, parse_quote, Data, DeriveInput, Fields, GenericParam};

#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let Data::Struct(s) = &d.data else { panic!("only structs") };
    let Fields::Named(f) = &s.fields else { panic!("only named fields") };
    let n = &d.ident;
    let vis = &d.vis;
    let b = format_ident!("{}Builder", n);
    let e = format_ident!("{}BuilderError", n);
    let (ig, tg, w) = d.generics.split_for_impl();
    let mut cg = d.generics.clone();
    for p in cg.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds.push(parse_quote!(::core::clone::Clone));
        }
    }
    let (cig, _, cw) = cg.split_for_impl();
    let names: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
    let tys: Vec<_> = f.named.iter().map(|f| f.ty.clone()).collect();
    let strs: Vec<_> = names.iter().map(|n| n.to_string()).collect();
    quote! {
        #vis struct #b #ig #w { #( #names: ::core::option::Option<#tys>, )* }
        impl #ig ::core::default::Default for #b #tg #w {
            fn default() -> Self { Self { #( #names: ::core::option::Option::None, )* } }
        }
        #[derive(Debug)]
        #vis enum #e { UninitializedField(&'static str), ValidationError(::std::string::String) }
        impl ::std::fmt::Display for #e {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                match self {
                    Self::UninitializedField(n) => write!(f, "`{}` must be initialized", n),
                    Self::ValidationError(n) => f.write_str(n),
                }
            }
        }
        impl ::std::error::Error for #e {}
        #[allow(dead_code)]
        impl #cig #b #tg #cw {
            #( pub fn #names(&mut self, value: #tys) -> &mut Self { self.#names = ::core::option::Option::Some(value); self } )*
            pub fn build(&self) -> ::core::result::Result<#n #tg, #e> {
                Ok(#n { #( #names: match &self.#names {
                    ::core::option::Option::Some(v) => ::core::clone::Clone::clone(v),
                    ::core::option::Option::None => return Err(#e::UninitializedField(#strs)),
                }, )* })
            }
        }
    }
    .into()
}
