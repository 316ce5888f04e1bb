//! `#[rpc(server)]`: the trait `<Name>Server` with `into_rpc`, which gives a module with the methods
//! under their names; parameters by position or by name, as jsonrpsee does.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Attribute, FnArg, ItemTrait, LitStr, Pat, TraitItem, Type};

fn method_name(attr: &Attribute) -> Option<String> {
    if !attr.path().is_ident("method") {
        return None;
    }
    let mut name = None;
    let _ = attr.parse_nested_meta(|meta| {
        let value: syn::Expr = meta.value()?.parse()?;
        if meta.path.is_ident("name") {
            if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = value {
                name = Some(LitStr::value(&s));
            }
        }
        Ok(())
    });
    name
}

fn camel(x: &str) -> String {
    let mut r = String::new();
    let mut up = false;
    for c in x.chars() {
        if c == '_' {
            up = true;
        } else if up {
            r.extend(c.to_uppercase());
            up = false;
        } else {
            r.push(c);
        }
    }
    r
}

#[proc_macro_attribute]
pub fn rpc(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut tr = parse_macro_input!(item as ItemTrait);
    tr.ident = format_ident!("{}Server", tr.ident);
    let mut arms = vec![];
    for it in &mut tr.items {
        let TraitItem::Fn(f) = it else { continue };
        let name = f.attrs.iter().find_map(method_name);
        f.attrs.retain(|a| !a.path().is_ident("method"));
        let Some(name) = name else { continue };
        let id = &f.sig.ident;
        let mut lets = vec![];
        let mut names = vec![];
        let mut position = 0usize;
        for a in &f.sig.inputs {
            let FnArg::Typed(t) = a else { continue };
            let Pat::Ident(p) = &*t.pat else { panic!("name expected") };
            let ty: &Type = &t.ty;
            let v = &p.ident;
            let snake = v.to_string();
            let cam = camel(&snake);
            lets.push(quote! {
                let #v: #ty = jsonrpsee::__sim::parameter(&__params, #position, #snake, #cam)?;
            });
            names.push(v.clone());
            position += 1;
        }
        let call = if f.sig.asyncness.is_some() {
            quote! { __this.#id(#(#names),*).await }
        } else {
            quote! { __this.#id(#(#names),*) }
        };
        arms.push(quote! {
            __module.add(#name, std::sync::Arc::new(move |__this: std::sync::Arc<Self>, __params: jsonrpsee::__sim::Json| {
                Box::pin(async move {
                    #(#lets)*
                    let __result = #call;
                    jsonrpsee::__sim::result(__result)
                })
            }));
        });
    }
    tr.supertraits = syn::parse_quote!(Sized + Send + Sync + 'static);
    tr.colon_token = Some(Default::default());
    tr.items.push(syn::parse_quote! {
        fn into_rpc(self) -> jsonrpsee::RpcModule<Self> {
            let mut __module = jsonrpsee::RpcModule::new(self);
            #(#arms)*
            __module
        }
    });
    quote! { #[jsonrpsee::core::async_trait] #tr }.into()
}
