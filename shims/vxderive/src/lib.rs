//! Stand-ins for derive macros of crates that are not available offline.  They expand to nothing,
//! except Equivalence, which builds the same structured datatype as rsmpi's derive.
use proc_macro::TokenStream;
use quote::quote;

macro_rules! nothing {
    ($($f:ident $n:ident),*) => { $(
        #[proc_macro_derive($n, attributes(serde, name, key, subsweep, diman))]
        pub fn $f(_: TokenStream) -> TokenStream { TokenStream::new() }
    )* };
}
nothing!(resource Resource, component Component, named Named, bundle Bundle, deserialize Deserialize, serialize Serialize, stage StageLabel, h5 H5Type, parser Parser, args Args);

/// `#[subsweep_parameters(..)]`: only drops the serde attributes below it.
#[proc_macro_attribute]
pub fn subsweep_parameters(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut d = syn::parse_macro_input!(item as syn::DeriveInput);
    strip(&mut d);
    // the real attribute adds Clone, Serialize, Deserialize and the registration of the section
    quote!(#[derive(Clone)] #d).into()
}

fn strip(d: &mut syn::DeriveInput) {
    let keep = |a: &syn::Attribute| !a.path().is_ident("serde") && !a.path().is_ident("name");
    d.attrs.retain(keep);
    match &mut d.data {
        syn::Data::Struct(s) => s.fields.iter_mut().for_each(|f| f.attrs.retain(keep)),
        syn::Data::Enum(e) => e.variants.iter_mut().for_each(|v| {
            v.attrs.retain(keep);
            v.fields.iter_mut().for_each(|f| f.attrs.retain(keep));
        }),
        _ => {}
    }
}

#[proc_macro_derive(Equivalence)]
pub fn equivalence(item: TokenStream) -> TokenStream {
    let d = syn::parse_macro_input!(item as syn::DeriveInput);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let fields: Vec<(syn::Member, syn::Type)> = match &d.data {
        syn::Data::Struct(s) => s.fields.members().zip(s.fields.iter().map(|f| f.ty.clone())).collect(),
        _ => vec![],
    };
    let (ms, ts): (Vec<_>, Vec<_>) = fields.into_iter().unzip();
    quote! {
        unsafe impl #ig ::mpi::traits::Equivalence for #name #tg #wc {
            type Out = ::mpi::datatype::UserDatatype;
            fn equivalent_datatype() -> Self::Out {
                ::mpi::datatype::UserDatatype::from_fields(vec![
                    #( (::core::mem::offset_of!(Self, #ms), ::mpi::datatype::AsUser::as_user(&<#ts as ::mpi::traits::Equivalence>::equivalent_datatype())) ),*
                ], ::core::mem::size_of::<Self>())
            }
        }
    }
    .into()
}

/// `#[derive(Named)] #[name = ".."]` for mirrors that have crate::named
#[proc_macro_derive(NamedImpl, attributes(name))]
pub fn named_impl(item: TokenStream) -> TokenStream {
    let d = syn::parse_macro_input!(item as syn::DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let ident = &d.ident;
    let name = d.attrs.iter().find(|a| a.path().is_ident("name")).and_then(|a| match &a.meta {
        syn::Meta::NameValue(n) => { let v = &n.value; Some(quote!(#v)) }
        _ => None,
    }).unwrap_or_else(|| { let s = ident.to_string(); quote!(#s) });
    quote!(impl #ig crate::named::Named for #ident #tg #wc { fn name() -> &'static str { #name } }).into()
}
