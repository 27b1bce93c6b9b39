//! stdin lines: path of a generated file; answers one JSON line: the items of `mod xdr` with normalised tokens.
use quote::ToTokens;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
fn s<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn vis(v: &syn::Visibility) -> bool { matches!(v, syn::Visibility::Public(_)) }
fn fields(f: &syn::Fields) -> Value {
    Value::Array(f.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), s(&f.ty), vis(&f.vis)])).collect())
}
fn derives(a: &[syn::Attribute]) -> Vec<String> { a.iter().map(|a| s(a)).collect() }
fn item(i: &syn::Item) -> Value {
    let t = s(i);
    match i {
        syn::Item::Struct(x) => json!({"k":"struct","name":x.ident.to_string(),"pub":vis(&x.vis),"gen":s(&x.generics),"where":s(&x.generics.where_clause),
            "tuple":matches!(x.fields, syn::Fields::Unnamed(_)),"fields":fields(&x.fields),"attrs":derives(&x.attrs),"t":t}),
        syn::Item::Enum(x) => json!({"k":"enum","name":x.ident.to_string(),"pub":vis(&x.vis),"gen":s(&x.generics),"where":s(&x.generics.where_clause),
            "variants":x.variants.iter().map(|v| json!([v.ident.to_string(), fields(&v.fields), v.discriminant.as_ref().map(|d| s(&d.1))])).collect::<Vec<_>>(),"attrs":derives(&x.attrs),"t":t}),
        syn::Item::Impl(x) => json!({"k":"impl","trait":x.trait_.as_ref().map(|t| s(&t.1)),"self":s(&x.self_ty),"gen":s(&x.generics),"t":t}),
        syn::Item::Const(x) => json!({"k":"const","name":x.ident.to_string(),"pub":vis(&x.vis),"ty":s(&x.ty),"val":s(&x.expr),"t":t}),
        syn::Item::Fn(x) => json!({"k":"fn","name":x.sig.ident.to_string(),"t":t}),
        _ => json!({"k":"other","t":t}),
    }
}
fn main() {
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let text = std::fs::read_to_string(&l).unwrap();
        let v = match syn::parse_file(&text) {
            Err(e) => json!({"error": e.to_string()}),
            Ok(f) => {
                let mut mods = vec![];
                for i in &f.items {
                    if let syn::Item::Mod(m) = i {
                        mods.push(json!({"name":m.ident.to_string(),"pub":vis(&m.vis),"items":m.content.as_ref().map(|c| c.1.iter().map(item).collect::<Vec<_>>()).unwrap_or_default()}));
                    } else { mods.push(json!({"name":null,"t":s(i)})); }
                }
                json!({"mods": mods})
            }
        };
        println!("{}", v);
        std::io::stdout().flush().unwrap();
    }
}
