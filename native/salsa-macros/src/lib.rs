use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::*;
fn id_struct(item: TokenStream, interned: bool) -> TokenStream {
    let s = parse_macro_input!(item as ItemStruct);
    let (name, vis, attrs) = (&s.ident, &s.vis, &s.attrs);
    let data = format_ident!("{}Data", name);
    let fs: Vec<_> = match &s.fields { Fields::Named(f) => f.named.iter().cloned().collect(), _ => vec![] };
    let ns: Vec<_> = fs.iter().map(|f| f.ident.clone().unwrap()).collect();
    let ts: Vec<_> = fs.iter().map(|f| f.ty.clone()).collect();
    let get = fs.iter().map(|f| {
        let (n, t, v) = (&f.ident, &f.ty, &f.vis);
        if f.attrs.iter().any(|a| a.path.is_ident("return_ref")) { quote! { #v fn #n<'db>(self, _db: &'db (dyn crate::Db + 'db)) -> &'db #t { &self.0.#n } } }
        else { quote! { #v fn #n<'db>(self, _db: &'db (dyn crate::Db + 'db)) -> #t { self.0.#n.clone() } } }
    });
    let (dd, mk) = if interned { (quote! { #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] }, quote! { #name(::salsa::intern(#data { #(#ns),* })) }) }
        else { (quote! {}, quote! { #name(Box::leak(Box::new(#data { #(#ns),* }))) }) };
    quote! {
        #dd #vis struct #data { #(#ns: #ts),* }
        #(#attrs)* #[derive(Clone, Copy)] #vis struct #name(&'static #data);
        impl #name {
            #vis fn new<'db>(_db: &'db (dyn crate::Db + 'db), #(#ns: #ts),*) -> Self { #mk }
            #(#get)*
            fn vx_addr(&self) -> usize { self.0 as *const _ as usize }
        }
        impl PartialEq for #name { fn eq(&self, o: &Self) -> bool { self.vx_addr() == o.vx_addr() } }
        impl Eq for #name {}
        impl PartialOrd for #name { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
        impl Ord for #name { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.vx_addr().cmp(&o.vx_addr()) } }
        impl std::hash::Hash for #name { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.vx_addr().hash(h) } }
        impl std::fmt::Debug for #name { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}(..)", stringify!(#name)) } }
    }.into()
}
#[proc_macro_attribute] pub fn input(_: TokenStream, item: TokenStream) -> TokenStream { id_struct(item, false) }
#[proc_macro_attribute] pub fn interned(_: TokenStream, item: TokenStream) -> TokenStream { id_struct(item, true) }
#[proc_macro_attribute] pub fn tracked(_: TokenStream, item: TokenStream) -> TokenStream {
    let it = item.clone();
    let Ok(f) = syn::parse::<ItemFn>(it) else { return id_struct(item, false) };
    let (name, vis, body, attrs) = (&f.sig.ident, &f.vis, &f.block, &f.attrs);
    let ret = match &f.sig.output { ReturnType::Type(_, t) => (**t).clone(), _ => parse_quote!(()) };
    let ins: Vec<_> = f.sig.inputs.iter().skip(1).collect();
    let ns: Vec<_> = f.sig.inputs.iter().skip(1).map(|a| match a { FnArg::Typed(p) => (*p.pat).clone(), _ => panic!() }).collect();
    let run = format_ident!("vx_run_{}", name);
    quote! {
        #(#attrs)* fn #run(db: &dyn crate::Db, #(#ins),*) -> #ret #body
        #vis fn #name<'db>(db: &'db (dyn crate::Db + 'db), #(#ins),*) -> &'db #ret { Box::leak(Box::new(#run(db, #(#ns),*))) }
        #vis mod #name {
            use super::*;
            pub fn accumulated<A: ::salsa::Accumulator>(db: &dyn crate::Db, #(#ins),*) -> Vec<A::Data> { ::salsa::collect::<A>(|| { #run(db, #(#ns),*); }) }
        }
    }.into()
}
#[proc_macro_attribute] pub fn accumulator(_: TokenStream, item: TokenStream) -> TokenStream {
    let s = parse_macro_input!(item as ItemStruct);
    let (name, vis) = (&s.ident, &s.vis);
    let t = match &s.fields { Fields::Unnamed(f) => f.unnamed[0].ty.clone(), _ => panic!() };
    quote! {
        #vis struct #name;
        impl #name { #vis fn push(_db: &dyn crate::Db, x: #t) { ::salsa::push::<#name, #t>(x) } }
        impl ::salsa::Accumulator for #name { type Data = #t; }
    }.into()
}
#[proc_macro_attribute] pub fn db(_: TokenStream, item: TokenStream) -> TokenStream { item }
#[proc_macro_attribute] pub fn jar(_: TokenStream, item: TokenStream) -> TokenStream {
    let s = parse_macro_input!(item as ItemStruct);
    let (name, vis) = (&s.ident, &s.vis);
    quote! { #vis struct #name; }.into()
}
