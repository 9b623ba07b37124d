//! Harness stand-in for `#[marine]`: records get serde, functions get a JSON entry point
//! `__marine_export_<name>(args: &str) -> String` (args is a JSON array, as on a Fluence node).
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, FnArg, Item};

#[proc_macro_attribute]
pub fn marine(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let item = parse_macro_input!(item as Item);
    match item {
        Item::Struct(s) => quote! {
            #[derive(::marine_rs_sdk::__serde::Serialize, ::marine_rs_sdk::__serde::Deserialize)]
            #[serde(crate = "::marine_rs_sdk::__serde")]
            #s
        }
        .into(),
        Item::Fn(f) => {
            let name = &f.sig.ident;
            let export = format!("__marine_export_{name}");
            let wrapper = format_ident!("__marine_export_{}", name);
            let tys: Vec<_> = f
                .sig
                .inputs
                .iter()
                .map(|a| match a {
                    FnArg::Typed(t) => (*t.ty).clone(),
                    _ => panic!("self in a #[marine] function"),
                })
                .collect();
            let vars: Vec<_> = (0..tys.len()).map(|i| format_ident!("a{}", i)).collect();
            let n = tys.len();
            let vis = &f.vis;
            quote! {
                #f
                #[doc(hidden)]
                #[allow(unused_mut, unused_variables)]
                #[export_name = #export]
                #vis extern "Rust" fn #wrapper(args: &str) -> String {
                    let mut v: ::std::vec::Vec<::marine_rs_sdk::__serde_json::Value> =
                        ::marine_rs_sdk::__serde_json::from_str(args).expect("harness: args must be a JSON array");
                    assert_eq!(v.len(), #n, "harness: wrong number of arguments for {}", #export);
                    let mut it = v.into_iter();
                    #( let #vars: #tys = ::marine_rs_sdk::__serde_json::from_value(it.next().unwrap())
                        .expect("harness: argument does not fit the declared type"); )*
                    let r = #name(#(#vars),*);
                    ::marine_rs_sdk::__serde_json::to_string(&r).unwrap()
                }
            }
            .into()
        }
        other => quote!(#other).into(),
    }
}
