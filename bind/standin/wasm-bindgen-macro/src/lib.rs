//! `#[wasm_bindgen]`: items exported to JavaScript stay what they are (and a struct can become a
//! JsValue), imported types are wrappers of a JsValue, imported methods are calls of a host object.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, FnArg, ForeignItem, ImplItem, Item, Pat};

fn strip(a: &mut Vec<syn::Attribute>) {
    a.retain(|x| !x.path().is_ident("wasm_bindgen"));
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    match parse_macro_input!(item as Item) {
        Item::Struct(mut s) => {
            strip(&mut s.attrs);
            for f in s.fields.iter_mut() {
                strip(&mut f.attrs);
            }
            let n = &s.ident;
            quote! {
                #s
                impl From<#n> for ::wasm_bindgen::JsValue {
                    fn from(x: #n) -> ::wasm_bindgen::JsValue {
                        ::wasm_bindgen::JsValue::native(x)
                    }
                }
            }
            .into()
        }
        Item::Impl(mut i) => {
            strip(&mut i.attrs);
            for x in i.items.iter_mut() {
                if let ImplItem::Fn(f) = x {
                    strip(&mut f.attrs);
                }
            }
            quote!(#i).into()
        }
        Item::ForeignMod(m) => {
            let mut out = proc_macro2::TokenStream::new();
            for it in m.items {
                match it {
                    ForeignItem::Type(t) => {
                        let (n, v) = (&t.ident, &t.vis);
                        out.extend(quote! {
                            #[repr(transparent)]
                            #[derive(Clone)]
                            #v struct #n(::wasm_bindgen::JsValue);
                            impl std::ops::Deref for #n {
                                type Target = ::wasm_bindgen::JsValue;
                                fn deref(&self) -> &::wasm_bindgen::JsValue { &self.0 }
                            }
                            impl AsRef<::wasm_bindgen::JsValue> for #n {
                                fn as_ref(&self) -> &::wasm_bindgen::JsValue { &self.0 }
                            }
                            impl From<::wasm_bindgen::JsValue> for #n {
                                fn from(x: ::wasm_bindgen::JsValue) -> Self { #n(x) }
                            }
                            impl From<#n> for ::wasm_bindgen::JsValue {
                                fn from(x: #n) -> ::wasm_bindgen::JsValue { x.0 }
                            }
                            impl ::wasm_bindgen::JsCast for #n {
                                fn instanceof(_: &::wasm_bindgen::JsValue) -> bool { true }
                                fn unchecked_from_js(x: ::wasm_bindgen::JsValue) -> Self { #n(x) }
                                fn unchecked_from_js_ref(x: &::wasm_bindgen::JsValue) -> &Self {
                                    unsafe { &*(x as *const ::wasm_bindgen::JsValue as *const #n) }
                                }
                            }
                        });
                    }
                    ForeignItem::Fn(f) => {
                        let mut name = f.sig.ident.to_string();
                        for a in &f.attrs {
                            let _ = a.parse_nested_meta(|m| {
                                if m.path.is_ident("js_name") {
                                    let v = m.value()?;
                                    if let Ok(s) = v.parse::<syn::LitStr>() {
                                        name = s.value();
                                    } else if let Ok(i) = v.parse::<syn::Ident>() {
                                        name = i.to_string();
                                    }
                                } else if m.input.peek(syn::Token![=]) {
                                    let v = m.value()?;
                                    let _: syn::Expr = v.parse()?;
                                }
                                Ok(())
                            });
                        }
                        let (vis, id, ret) = (&f.vis, &f.sig.ident, &f.sig.output);
                        let mut it = f.sig.inputs.iter();
                        let this = match it.next() {
                            Some(FnArg::Typed(t)) => match &*t.ty {
                                syn::Type::Reference(r) => (*r.elem).clone(),
                                x => x.clone(),
                            },
                            _ => panic!("stand-in: only methods can be imported"),
                        };
                        let rest: Vec<_> = it.collect();
                        let names: Vec<_> = rest
                            .iter()
                            .map(|a| match a {
                                FnArg::Typed(t) => match &*t.pat {
                                    Pat::Ident(i) => i.ident.clone(),
                                    _ => panic!("stand-in: argument"),
                                },
                                _ => panic!("stand-in: argument"),
                            })
                            .collect();
                        out.extend(quote! {
                            impl #this {
                                #vis async fn #id(&self, #(#rest),*) #ret {
                                    let args = vec![#(::wasm_bindgen::JsValue::from(#names)),*];
                                    ::wasm_bindgen::JsValue::call(&self.0, #name, args).await
                                }
                            }
                        });
                    }
                    _ => {}
                }
            }
            out.into()
        }
        Item::Fn(mut f) => {
            strip(&mut f.attrs);
            quote!(#f).into()
        }
        x => quote!(#[allow(dead_code)] #x).into(),
    }
}
