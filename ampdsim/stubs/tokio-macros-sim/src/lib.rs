use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse::Parser, parse_macro_input, Pat};

#[proc_macro]
pub fn select_priv_declare_output_enum(input: TokenStream) -> TokenStream {
    // one `_` per branch, in parentheses
    let n = input
        .into_iter()
        .map(|t| match t {
            proc_macro::TokenTree::Group(g) => g.stream().into_iter().count(),
            _ => 1,
        })
        .sum::<usize>();
    let v: Vec<_> = (0..n).map(|i| format_ident!("_{}", i)).collect();
    quote! {
        pub(super) enum Out<#( #v ),*> {
            #( #v(#v), )*
            Disabled,
        }
        pub(super) type Mask = u64;
    }
    .into()
}

fn clean(p: &mut Pat) {
    match p {
        Pat::Ident(i) => {
            i.by_ref = None;
            i.mutability = None;
            if let Some((_, p)) = &mut i.subpat {
                clean(p);
            }
        }
        Pat::Or(o) => o.cases.iter_mut().for_each(clean),
        Pat::Paren(p) => clean(&mut p.pat),
        Pat::Slice(s) => s.elems.iter_mut().for_each(clean),
        Pat::Struct(s) => s.fields.iter_mut().for_each(|f| clean(&mut f.pat)),
        Pat::Tuple(t) => t.elems.iter_mut().for_each(clean),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(clean),
        Pat::Reference(r) => {
            r.mutability = None;
            clean(&mut r.pat);
        }
        Pat::Type(t) => clean(&mut t.pat),
        _ => {}
    }
}

#[proc_macro]
pub fn select_priv_clean_pattern(input: TokenStream) -> TokenStream {
    let mut p = match Pat::parse_multi_with_leading_vert.parse(input.clone()) {
        Ok(p) => p,
        Err(e) => return e.to_compile_error().into(),
    };
    clean(&mut p);
    quote!(#p).into()
}

/// `#[tokio::main]` and `#[tokio::test]` are not used by the code under simulation
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse_macro_input!(item as syn::ItemFn);
    quote!(#f).into()
}
