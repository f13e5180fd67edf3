//! The part of pyo3's macros that the binding uses, generating calls by name on dynamic values.

use proc_macro::TokenStream;
use proc_macro2::{Ident, TokenStream as Tokens};
use quote::{format_ident, quote};
use syn::{
    parse::{Parse, ParseStream},
    parse_macro_input,
    punctuated::Punctuated,
    Attribute, Expr, FnArg, ImplItem, ItemFn, ItemImpl, ItemStruct, Pat, 
    Signature, Token, Type, Visibility,
};

// ------------------------------------------------------------------------------ attributes

enum Opt {
    Flag(String),
    Value(String, Expr),
    Signature(Vec<(String, Option<Expr>)>),
}

struct Opts(Vec<Opt>);

impl Parse for Opts {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let mut res = vec![];
        while !input.is_empty() {
            let name: Ident = input.call(syn::ext::IdentExt::parse_any)?;
            if input.peek(Token![=]) {
                input.parse::<Token![=]>()?;
                if name == "signature" {
                    let inner;
                    syn::parenthesized!(inner in input);
                    let mut params = vec![];
                    while !inner.is_empty() {
                        if inner.peek(Token![*]) {
                            inner.parse::<Token![*]>()?;
                        } else if inner.peek(Token![/]) {
                            inner.parse::<Token![/]>()?;
                        } else {
                            let p: Ident = inner.call(syn::ext::IdentExt::parse_any)?;
                            let default = if inner.peek(Token![=]) {
                                inner.parse::<Token![=]>()?;
                                Some(inner.parse::<Expr>()?)
                            } else {
                                None
                            };
                            params.push((p.to_string(), default));
                        }
                        if inner.peek(Token![,]) {
                            inner.parse::<Token![,]>()?;
                        }
                    }
                    res.push(Opt::Signature(params));
                } else {
                    res.push(Opt::Value(name.to_string(), input.parse()?));
                }
            } else {
                if input.peek(syn::token::Paren) {
                    let inner;
                    syn::parenthesized!(inner in input);
                    let _: Tokens = inner.parse()?;
                }
                res.push(Opt::Flag(name.to_string()));
            }
            if input.peek(Token![,]) {
                input.parse::<Token![,]>()?;
            }
        }
        Ok(Opts(res))
    }
}

impl Opts {
    fn flag(&self, name: &str) -> bool {
        self.0.iter().any(|o| matches!(o, Opt::Flag(n) if n == name))
    }
    fn string(&self, name: &str) -> Option<String> {
        self.0.iter().find_map(|o| match o {
            Opt::Value(n, Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) if n == name => {
                Some(s.value())
            },
            _ => None,
        })
    }
    fn signature(&self) -> Option<&Vec<(String, Option<Expr>)>> {
        self.0.iter().find_map(|o| match o {
            Opt::Signature(s) => Some(s),
            _ => None,
        })
    }
}

/// removes the attributes that belong to pyo3
fn take_attrs(attrs: &mut Vec<Attribute>) -> (Opts, Vec<String>) {
    let mut opts = Opts(vec![]);
    let mut markers = vec![];
    attrs.retain(|a| {
        let name = a.path().segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "pyo3" => {
                opts.0.extend(a.parse_args::<Opts>().expect("pyo3 attribute").0);
                false
            },
            "new" | "getter" | "staticmethod" | "classmethod" | "setter" => {
                markers.push(name);
                false
            },
            _ => true,
        }
    });
    (opts, markers)
}

fn public(vis: &mut Visibility) {
    *vis = syn::parse_quote!(pub);
}

// ------------------------------------------------------------------------------- arguments

fn is_named(ty: &Type, name: &str) -> bool {
    matches!(ty, Type::Path(p) if p.path.segments.last().unwrap().ident == name)
}

/// statements that make the values of the arguments from `__args`, and the values
fn arguments(sig: &Signature, opts: &Opts) -> (Tokens, Vec<Tokens>) {
    let mut names = vec![];
    let mut types = vec![];
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            let Pat::Ident(p) = &*t.pat else { panic!("argument pattern") };
            names.push(p.ident.to_string());
            types.push((*t.ty).clone());
        }
    }
    let is_py = |ty: &Type| is_named(ty, "Python");
    let given: Vec<(String, Type)> = names
        .iter()
        .cloned()
        .zip(types.iter().cloned())
        .filter(|(_, t)| !is_py(t))
        .collect();
    // order and defaults
    let mut order: Vec<(String, Option<Tokens>)> = match opts.signature() {
        Some(s) => s.iter().map(|(n, d)| (n.clone(), d.as_ref().map(|d| quote!(#d)))).collect(),
        None => given.iter().map(|(n, _)| (n.clone(), None)).collect(),
    };
    if opts.signature().is_none() {
        for (k, (_, t)) in given.iter().enumerate().rev() {
            if !is_named(t, "Option") {
                break;
            }
            order[k].1 = Some(quote!(None));
        }
    }
    let idents: Vec<String> = order.iter().map(|o| o.0.clone()).collect();
    let mut pre = quote! { let mut __bound = __args.bind(&[#(#idents),*])?; };
    for (k, (name, default)) in order.iter().enumerate() {
        let ty = &given.iter().find(|g| g.0 == *name).expect("signature").1;
        let v = format_ident!("__v{}", name);
        let hold = format_ident!("__h{}", name);
        match ty {
            Type::Reference(r) => {
                let inner = &r.elem;
                pre.extend(quote! {
                    let #hold: ::pyo3::PyAny = ::pyo3::required(__bound[#k].take(), #name)?;
                });
                if is_named(inner, "PyAny") {
                    pre.extend(quote! { let #v = &#hold; });
                } else if r.mutability.is_some() {
                    pre.extend(quote! {
                        let mut #v = ::pyo3::PyRefMut::<#inner>::borrow(&#hold)?;
                        let #v = &mut *#v;
                    });
                } else {
                    pre.extend(quote! {
                        let #v = ::pyo3::PyRef::<#inner>::borrow(&#hold)?;
                        let #v = &*#v;
                    });
                }
            },
            _ => {
                let missing = match default {
                    Some(d) => quote! { None => #d },
                    None => quote! { None => return Err(::pyo3::missing(#name)) },
                };
                pre.extend(quote! {
                    let #hold = __bound[#k].take();
                    let #v: #ty = match &#hold {
                        Some(o) => o.extract()?,
                        #missing
                    };
                });
            },
        }
    }
    let vals = names
        .iter()
        .zip(&types)
        .map(|(n, t)| {
            if is_py(t) {
                quote!(::pyo3::Python::assume())
            } else {
                let v = format_ident!("__v{}", n);
                quote!(#v)
            }
        })
        .collect();
    (pre, vals)
}

// ---------------------------------------------------------------------------------- macros

#[proc_macro_attribute]
pub fn pyclass(attr: TokenStream, item: TokenStream) -> TokenStream {
    let opts = parse_macro_input!(attr as Opts);
    let mut item = parse_macro_input!(item as ItemStruct);
    let ident = item.ident.clone();
    let name = opts.string("name").unwrap_or_else(|| ident.to_string());
    take_attrs(&mut item.attrs);
    let clone = item.attrs.iter().any(|a| {
        a.path().is_ident("derive")
            && a.parse_args_with(Punctuated::<syn::Path, Token![,]>::parse_terminated)
                .is_ok_and(|l| l.iter().any(|p| p.segments.last().unwrap().ident == "Clone"))
    });
    let all = opts.flag("get_all");
    let mut getters = quote!();
    for f in item.fields.iter_mut() {
        let (o, _) = take_attrs(&mut f.attrs);
        if o.flag("get") || all {
            let field = f.ident.clone().expect("getter");
            let name = o.string("name").unwrap_or_else(|| field.to_string());
            getters.extend(quote! {
                if name == #name {
                    return Some(::pyo3::IntoPyAny::into_any(self.#field.clone()));
                }
            });
        }
    }
    let extract = clone.then(|| {
        quote! {
            impl<'s> ::pyo3::FromPyObject<'s> for #ident {
                fn extract(ob: &'s ::pyo3::PyAny) -> ::pyo3::PyResult<Self> {
                    Ok((*::pyo3::PyRef::<#ident>::borrow(ob)?).clone())
                }
            }
        }
    });
    quote! {
        #item
        impl ::pyo3::PyClass for #ident {
            const NAME: &'static str = #name;
            fn field(&self, name: &str) -> Option<::pyo3::PyAny> {
                #getters
                None
            }
            fn construct(args: ::pyo3::Args) -> ::pyo3::PyResult<::pyo3::PyAny> {
                <#ident as ::pyo3::PyMethods>::construct(args)
            }
            fn method(
                ob: &::pyo3::PyAny, name: &str, args: ::pyo3::Args
            ) -> Option<::pyo3::PyResult<::pyo3::PyAny>> {
                #[allow(unused_imports)]
                use ::pyo3::{WithSerde as _, WithoutSerde as _};
                (&::pyo3::Probe::<#ident>::new())
                    .serde(ob, name, &args)
                    .or_else(|| <#ident as ::pyo3::PyMethods>::method(ob, name, args))
            }
        }
        impl ::pyo3::IntoPyAny for #ident {
            fn into_any(self) -> ::pyo3::PyAny {
                ::pyo3::PyAny::instance(self)
            }
        }
        #extract
    }
    .into()
}

#[proc_macro_attribute]
pub fn pymethods(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = parse_macro_input!(item as ItemImpl);
    let ty = item.self_ty.clone();
    let mut construct = quote! { Err(::pyo3::no_constructor()) };
    let mut methods = quote!();
    for i in item.items.iter_mut() {
        let ImplItem::Fn(f) = i else { continue };
        let (opts, markers) = take_attrs(&mut f.attrs);
        public(&mut f.vis);
        let (pre, vals) = arguments(&f.sig, &opts);
        let ident = &f.sig.ident;
        let name = opts.string("name").unwrap_or_else(|| {
            let n = ident.to_string();
            n.strip_prefix("r#").unwrap_or(&n).to_string()
        });
        let marked = |m: &str| markers.iter().any(|x| x == m);
        if marked("new") {
            construct = quote! {{
                #pre
                ::pyo3::IntoResult::into_result(#ty::#ident(#(#vals),*))
            }};
            continue;
        }
        let receiver = f.sig.inputs.iter().find_map(|a| match a {
            FnArg::Receiver(r) => Some(r.mutability.is_some()),
            _ => None,
        });
        let body = match receiver {
            Some(false) => quote! {
                let __self = ::pyo3::PyRef::<#ty>::borrow(ob)?;
                ::pyo3::IntoResult::into_result(__self.#ident(#(#vals),*))
            },
            Some(true) => quote! {
                let mut __self = ::pyo3::PyRefMut::<#ty>::borrow(ob)?;
                ::pyo3::IntoResult::into_result(__self.#ident(#(#vals),*))
            },
            None => quote! { ::pyo3::IntoResult::into_result(#ty::#ident(#(#vals),*)) },
        };
        let name = if marked("getter") {
            format!("get {}", name.strip_prefix("get_").unwrap_or(&name))
        } else {
            name
        };
        methods.extend(quote! {
            if name == #name {
                return Some((|| { #pre #body })());
            }
        });
    }
    quote! {
        #item
        impl ::pyo3::PyMethods for #ty {
            #[allow(unused_mut, unused_variables)]
            fn construct(__args: ::pyo3::Args) -> ::pyo3::PyResult<::pyo3::PyAny> {
                #construct
            }
            #[allow(unused_mut, unused_variables)]
            fn method(
                ob: &::pyo3::PyAny, name: &str, __args: ::pyo3::Args
            ) -> Option<::pyo3::PyResult<::pyo3::PyAny>> {
                #methods
                None
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pyfunction(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = parse_macro_input!(item as ItemFn);
    let (opts, _) = take_attrs(&mut item.attrs);
    public(&mut item.vis);
    let (pre, vals) = arguments(&item.sig, &opts);
    let ident = item.sig.ident.clone();
    let name = opts.string("name").unwrap_or_else(|| ident.to_string());
    let wrap = format_ident!("__call_{}", ident);
    quote! {
        #item
        #[allow(unused_mut)]
        pub fn #wrap(__args: ::pyo3::Args) -> ::pyo3::PyResult<::pyo3::PyAny> {
            #pre
            ::pyo3::IntoResult::into_result(#ident(#(#vals),*))
        }
        pub mod #ident {
            pub const NAME: &str = #name;
            pub fn call(args: ::pyo3::Args) -> ::pyo3::PyResult<::pyo3::PyAny> {
                super::#wrap(args)
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pymodule(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = parse_macro_input!(item as ItemFn);
    take_attrs(&mut item.attrs);
    public(&mut item.vis);
    quote!(#item).into()
}
