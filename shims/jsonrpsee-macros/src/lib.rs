//! Stand-in for jsonrpsee's `rpc` attribute: makes `trait X` the async trait `XServer` whose
//! `into_rpc` registers every method under the name in its `#[method(name = "..")]`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Expr, ExprLit, FnArg, ItemTrait, Lit, Pat, TraitItem};

#[proc_macro_attribute]
pub fn rpc(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut t = parse_macro_input!(item as ItemTrait);
    let vis = t.vis.clone();
    let name = format_ident!("{}Server", t.ident);
    let mut sigs = vec![];
    let mut regs = vec![];
    for it in t.items.iter_mut() {
        let TraitItem::Fn(f) = it else { continue };
        let mut rpc_names: Vec<String> = vec![];
        let mut blocking = false;
        f.attrs.retain(|a| {
            if !a.path().is_ident("method") {
                return true;
            }
            let _ = a.parse_nested_meta(|m| {
                if m.path.is_ident("name") {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = m.value()?.parse::<Expr>()? {
                        rpc_names.push(s.value());
                    }
                } else if m.path.is_ident("aliases") {
                    if let Expr::Array(x) = m.value()?.parse::<Expr>()? {
                        for e in x.elems {
                            if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = e {
                                rpc_names.push(s.value());
                            }
                        }
                    }
                } else if m.path.is_ident("blocking") {
                    blocking = true;
                } else if m.input.peek(syn::Token![=]) {
                    m.value()?.parse::<Expr>()?;
                }
                Ok(())
            });
            false
        });
        let sig = &f.sig;
        let ident = &sig.ident;
        let is_async = sig.asyncness.is_some();
        let mut args = vec![];
        let mut gets = vec![];
        for a in &sig.inputs {
            if let FnArg::Typed(p) = a {
                let Pat::Ident(i) = &*p.pat else { continue };
                let (i, ty) = (&i.ident, &p.ty);
                gets.push(quote! { let #i: #ty = __p.next()?; });
                args.push(i.clone());
            }
        }
        let aw = if is_async { quote! { .await } } else { quote! {} };
        sigs.push(quote! { #f });
        for n in rpc_names {
            regs.push(quote! {{
                let __me = __me.clone();
                __m.register(#n, move |mut __p: ::jsonrpsee::Params| {
                    let __me = __me.clone();
                    Box::pin(async move {
                        #(#gets)*
                        let __r = __me.#ident(#(#args),*)#aw?;
                        Ok(::jsonrpsee::to_value(&__r))
                    })
                });
            }});
        }
    }
    quote! {
        #[::jsonrpsee::core::async_trait]
        #vis trait #name: Sized + Send + Sync + 'static {
            #(#sigs)*
            fn into_rpc(self) -> ::jsonrpsee::RpcModule<Self> {
                let __me = ::std::sync::Arc::new(self);
                let mut __m = ::jsonrpsee::RpcModule::empty();
                #(#regs)*
                __m
            }
        }
    }
    .into()
}
