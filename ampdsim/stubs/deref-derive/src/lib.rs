use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index, Member};

fn first(d: &DeriveInput) -> (Member, syn::Type) {
    let Data::Struct(s) = &d.data else { panic!("only structs") };
    match &s.fields {
        Fields::Unnamed(f) => (Member::Unnamed(Index::from(0)), f.unnamed[0].ty.clone()),
        Fields::Named(f) => (Member::Named(f.named[0].ident.clone().unwrap()), f.named[0].ty.clone()),
        Fields::Unit => panic!("no field"),
    }
}

#[proc_macro_derive(Deref, attributes(deref))]
pub fn deref(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (m, t) = first(&d);
    let n = &d.ident;
    let (g, tg, w) = d.generics.split_for_impl();
    quote!(impl #g ::core::ops::Deref for #n #tg #w { type Target = #t; fn deref(&self) -> &#t { &self.#m } }).into()
}

#[proc_macro_derive(DerefMut, attributes(deref))]
pub fn deref_mut(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (m, t) = first(&d);
    let n = &d.ident;
    let (g, tg, w) = d.generics.split_for_impl();
    quote!(impl #g ::core::ops::DerefMut for #n #tg #w { fn deref_mut(&mut self) -> &mut #t { &mut self.#m } }).into()
}
