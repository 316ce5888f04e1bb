use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(Parser, attributes(command, arg, clap))]
pub fn parser(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let Data::Struct(data) = &input.data else { panic!("struct expected") };
    let Fields::Named(fields) = &data.fields else { panic!("named fields expected") };
    let inits = fields.named.iter().map(|f| {
        let id = f.ident.as_ref().unwrap();
        let long = id.to_string().replace('_', "-");
        quote! { #id: clap::__sim::get(#long) }
    });
    quote! { impl clap::Parser for #name { fn parse() -> Self { #name { #(#inits),* } } } }.into()
}
