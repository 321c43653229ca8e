//! Stand-in for clap's derive: `--field-name VALUE` for String and Option<String> fields.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(Parser, attributes(command, arg, clap))]
pub fn parser(item: TokenStream) -> TokenStream {
    let d = parse_macro_input!(item as DeriveInput);
    let name = d.ident;
    let Data::Struct(s) = d.data else { panic!("struct expected") };
    let Fields::Named(fields) = s.fields else { panic!("named fields expected") };
    let inits = fields.named.iter().map(|f| {
        let i = f.ident.as_ref().unwrap();
        let flag = format!("--{}", i.to_string().replace('_', "-"));
        quote! { #i: ::clap::take(&args, #flag) }
    });
    quote! {
        impl ::clap::Parser for #name {
            fn parse() -> Self {
                let args: Vec<String> = std::env::args().collect();
                #name { #(#inits),* }
            }
        }
    }
    .into()
}
