//! argument: names of the functions under contract (calls of others are inlined, inline.rs).  stdin lines: path of a Rust file; answers one JSON line: the functions and types of `mod xdr` (or of the file),
//! with bodies rewritten to the subset Verus accepts.  Every rewriting is local and meaning-preserving (DESIGN.md lists them).
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use syn::visit_mut::{self, VisitMut};
use syn::*;
#[path = "../inline.rs"]
mod inline;

fn s<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }

#[derive(Default)]
struct W {
    loops: Vec<Value>,
    bad: Vec<String>,
}

/// names pushed to, added to
#[derive(Default)]
struct Roles { push: Vec<String>, add: Vec<String> }
impl<'a> syn::visit::Visit<'a> for Roles {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if m.method == "push" { self.push.push(s(&m.receiver)); }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        if let BinOp::AddAssign(_) = b.op { self.add.push(s(&b.left)); }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        if let Expr::Binary(b) = &*a.right { if matches!(b.op, BinOp::Add(_)) && s(&b.left) == s(&a.left) { self.add.push(s(&a.left)); } }
        syn::visit::visit_expr_assign(self, a);
    }
}
fn roles(b: &Block) -> Roles { let mut r = Roles::default(); syn::visit::Visit::visit_block(&mut r, b); r }

/// `continue` of this very loop (an index loop would skip the increment)
#[derive(Default)]
struct Cont { found: bool }
impl<'a> syn::visit::Visit<'a> for Cont {
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.found = true; }
}
fn has_continue(b: &Block) -> bool { let mut c = Cont::default(); syn::visit::Visit::visit_block(&mut c, b); c.found }

fn meth<'a>(e: &'a Expr, name: &str) -> Option<&'a ExprMethodCall> {
    match e { Expr::MethodCall(m) if m.method == name => Some(m), _ => None }
}

impl W {
    fn mark(&mut self, kind: &str, extra: Value, b: &Block) -> proc_macro2::Ident {
        let r = roles(b);
        let n = self.loops.len();
        self.loops.push(json!({"kind": kind, "x": extra, "push": r.push, "add": r.add}));
        format_ident!("__VF_LOOP_{}__", n)
    }
    fn rewrite(&mut self, e: &mut Expr) {
        // X.iter().map(|p| B).sum::<usize>()
        if let Some(sum) = meth(e, "sum") {
            if let Some(map) = meth(&sum.receiver, "map") {
                if let (Some(it), Some(Expr::Closure(c))) = (meth(&map.receiver, "iter"), map.args.first()) {
                    if c.inputs.len() == 1 {
                        let (x, p, b) = (&it.receiver, &c.inputs[0], &c.body);
                        let n = self.loops.len();
                        self.loops.push(json!({"kind": "sum", "x": s(x), "push": [], "add": ["vf_acc"]}));
                        let mk = format_ident!("__VF_LOOP_{}__", n);
                        *e = Expr::Verbatim(quote!({ let mut vf_acc: usize = 0; let mut vf_i: usize = 0;
                            while vf_i < #x.len() #mk { let #p = &#x[vf_i]; vf_acc = vf_acc + (#b); vf_i = vf_i + 1; } vf_acc }));
                        return;
                    }
                }
            }
        }
        // X.iter().fold(0, |acc, p| B)
        if let Some(f) = meth(e, "fold") {
            if let (Some(it), Some(z), Some(Expr::Closure(c))) = (meth(&f.receiver, "iter"), f.args.first(), f.args.iter().nth(1)) {
                if let (2, Some(Pat::Ident(acc)), true) = (c.inputs.len(), c.inputs.first(), s(z).starts_with('0')) {
                    let (x, p, b, acc) = (&it.receiver, &c.inputs[1], &c.body, &acc.ident);
                    let n = self.loops.len();
                    self.loops.push(json!({"kind": "sum", "x": s(x), "push": [], "add": [acc.to_string()]}));
                    let mk = format_ident!("__VF_LOOP_{}__", n);
                    *e = Expr::Verbatim(quote!({ let mut #acc: usize = 0; let mut vf_i: usize = 0;
                        while vf_i < #x.len() #mk { let #p = &#x[vf_i]; #acc = #b; vf_i = vf_i + 1; } #acc }));
                    return;
                }
            }
        }
        // X.map_or(D, |p| B), X.map(|p| B).unwrap_or(D): D a value
        for k in ["map_or", "unwrap_or"] {
            if let Some(m) = meth(e, k) {
                let (x, d, f) = if k == "map_or" { if m.args.len() != 2 { break } (&m.receiver, &m.args[0], &m.args[1]) }
                    else { match meth(&m.receiver, "map") { Some(i) if i.args.len() == 1 => (&i.receiver, &m.args[0], &i.args[0]), _ => break } };
                if let (Expr::Closure(c), Expr::Lit(_) | Expr::Path(_)) = (f, d) {
                    if c.inputs.len() == 1 {
                        let (p, b) = (&c.inputs[0], &c.body);
                        *e = Expr::Verbatim(quote!((match #x { Some(#p) => #b, None => #d })));
                        return;
                    }
                }
            }
        }
        // X.into_iter().collect::<Vec<u8>>()
        if let Some(c) = meth(e, "collect") {
            if let Some(it) = meth(&c.receiver, "into_iter") {
                if matches!(c.turbofish.as_ref().map(|t| s(&t.args)).as_deref(), None | Some("Vec < u8 >" | "Vec < _ >")) {
                    let x = &it.receiver;
                    *e = Expr::Verbatim(quote!(#x.vf_collect()));
                    return;
                }
            }
        }
        // X.map_err(|e| B)
        if let Some(m) = meth(e, "map_err") {
            if let Some(Expr::Closure(c)) = m.args.first() {
                let (x, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                *e = Expr::Verbatim(quote!((match #x { Ok(vf_v) => Ok(vf_v), Err(#p) => Err(#b) })));
                return;
            }
            let (x, f) = (&m.receiver, &m.args[0]);
            *e = Expr::Verbatim(quote!((match #x { Ok(vf_v) => Ok(vf_v), Err(vf_e) => Err(#f(vf_e)) })));
            return;
        }
        // e.into() only occurs as an error conversion
        if let Some(m) = meth(e, "into") {
            let x = &m.receiver;
            *e = Expr::Verbatim(quote!(Error::from(#x)));
            return;
        }
        if let Some(m) = meth(e, "deref") {
            let x = &m.receiver;
            *e = Expr::Verbatim(quote!((&**#x)));
            return;
        }
        for r in ["reserve", "reserve_exact"] {
            if let Some(m) = meth(e, r) {
                if m.args.len() == 1 {
                    let (x, a) = (&m.receiver, &m.args);
                    *e = Expr::Verbatim(quote!(vf_reserve(&mut #x, #a, Ghost(vf_budget))));
                    return;
                }
            }
        }
        if let Some(m) = meth(e, "slice") {
            let x = &m.receiver;
            if let Some(Expr::Range(r)) = m.args.first() {
                if let RangeLimits::HalfOpen(_) = r.limits {
                    match (&r.start, &r.end) {
                        (None, Some(b)) => { *e = Expr::Verbatim(quote!(#x.vf_slice(0, #b))); return; }
                        (Some(a), Some(b)) => { *e = Expr::Verbatim(quote!(#x.vf_slice(#a, #b))); return; }
                        (Some(a), None) => { *e = Expr::Verbatim(quote!(#x.vf_slice_from(#a))); return; }
                        _ => {}
                    }
                }
            }
            self.bad.push(format!("slice: {}", s(e)));
            return;
        }
        match e {
            Expr::Cast(c) => {
                // `E::M as E` is the identity; any other cast keeps Rust's truncating meaning
                let (x, t) = (&c.expr, &c.ty);
                if let Expr::Path(p) = &**x {
                    let n = p.path.segments.len();
                    if n >= 2 && s(&p.path.segments[n - 2].ident) == s(t) { *e = (**x).clone(); return; }
                }
                *e = Expr::Verbatim(quote!((#[verifier::truncate] (#x as #t))));
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let seg = p.path.segments.last().unwrap();
                    if seg.ident == "size_of" {
                        let a = s(&seg.arguments).replace(' ', "");
                        let n: usize = match a.trim_start_matches("::").trim_matches(|c| c == '<' || c == '>') {
                            "u8" | "i8" => 1, "u16" | "i16" => 2, "u32" | "i32" | "f32" => 4, "u64" | "i64" | "f64" => 8,
                            o => { self.bad.push(format!("size_of {}", o)); 0 }
                        };
                        let l = proc_macro2::Literal::usize_suffixed(n);
                        *e = Expr::Verbatim(quote!(#l));
                    } else if seg.ident == "from_utf8" {
                        *e = { let a = &c.args; Expr::Verbatim(quote!(String::from_utf8(#a))) };
                    } else if p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == "Vec" && seg.ident == "with_capacity" {
                        let a = &c.args;
                        *e = Expr::Verbatim(quote!(vf_with_capacity(#a, Ghost(vf_budget))));
                    }
                }
            }
            Expr::Try(t) => {
                // the one place where `?` converts the error
                let x = &t.expr;
                if s(x).replace(' ', "").starts_with("String::from_utf8(") { *e = Expr::Verbatim(quote!((match #x { Ok(vf_v) => vf_v, Err(vf_e) => return Err(Error::from(vf_e)) }))); }
            }
            Expr::ForLoop(f) => {
                let (p, x, b) = (&f.pat, &f.expr, &f.body);
                let it = match (meth(x, "iter"), &**x) {
                    (Some(m), _) => Some((*m.receiver).clone()),
                    (_, Expr::Reference(r)) if r.mutability.is_none() => Some((*r.expr).clone()),
                    _ => None,
                };
                if let Some(x) = it {
                    if has_continue(b) { self.bad.push("continue in a loop over a slice".into()) }
                    let mk = self.mark("iter", json!(s(&x)), b);
                    let st = &b.stmts;
                    *e = Expr::Verbatim(quote!({ let mut vf_i: usize = 0; while vf_i < #x.len() #mk { let #p = &#x[vf_i]; #(#st)* vf_i = vf_i + 1; } }));
                } else if let Expr::Range(r) = &**x {
                    let v = match &**p { Pat::Wild(_) => format_ident!("vf_i"), Pat::Ident(i) => i.ident.clone(), _ => { self.bad.push("for pattern".into()); format_ident!("vf_i") } };
                    let mk = self.mark("range", json!({"var": v.to_string(), "lo": r.start.as_ref().map(|x| s(x)), "hi": r.end.as_ref().map(|x| s(x)), "open": matches!(r.limits, RangeLimits::HalfOpen(_))}), b);
                    *e = Expr::Verbatim(quote!(for #v in #x #mk #b));
                } else { self.bad.push(format!("for over {}", s(x))); }
            }
            Expr::While(w) => {
                let (c, b) = (&w.cond, &w.body);
                // a counter, or the number of elements so far
                let x = match &**c { Expr::Binary(q) if matches!(q.op, BinOp::Lt(_) | BinOp::Ne(_)) => match (&*q.left, meth(&q.left, "len")) {
                    (_, Some(m)) => json!({"var": format!("({}@.len() as int)", s(&m.receiver)), "hi": s(&q.right), "lo": Value::Null}),
                    (Expr::Path(p), _) => json!({"var": s(p), "hi": s(&q.right), "lo": Value::Null}),
                    _ => json!(s(c)) }, _ => json!(s(c)) };
                let mk = self.mark("while", x, b);
                *e = Expr::Verbatim(quote!(while #c #mk #b));
            }
            Expr::Loop(l) => {
                let b = &l.body;
                let mk = self.mark("loop", Value::Null, b);
                *e = Expr::Verbatim(quote!(loop #mk #b));
            }
            Expr::Closure(_) => self.bad.push(format!("closure {}", s(e))),
            Expr::Unsafe(_) => self.bad.push("unsafe".into()),
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if n == "vec" {
                    let t = m.mac.tokens.clone();
                    if t.is_empty() { *e = Expr::Verbatim(quote!(Vec::new())); return; }
                    struct Rep(Expr, Expr);
                    impl syn::parse::Parse for Rep { fn parse(i: syn::parse::ParseStream) -> Result<Self> { let a = i.parse()?; i.parse::<Token![;]>()?; Ok(Rep(a, i.parse()?)) } }
                    if let Ok(Rep(a, n)) = syn::parse2::<Rep>(t) { *e = Expr::Verbatim(quote!(vf_vec(#a, #n, Ghost(vf_budget)))); return; }
                }
                if n != "matches" { self.bad.push(format!("macro {}", n)) }
            }
            _ => {}
        }
    }
}
impl VisitMut for W {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // outer forms that consume their closure first
        if let Expr::MethodCall(m) = e {
            if ["sum", "map_err", "collect", "fold", "map_or", "unwrap_or"].contains(&m.method.to_string().as_str()) {
                // children except the closure node itself
                fn inner(w: &mut W, e: &mut Expr) {
                    if let Expr::MethodCall(m) = e {
                        inner(w, &mut m.receiver);
                        for a in m.args.iter_mut() {
                            if let Expr::Closure(c) = a { w.visit_expr_mut(&mut c.body) } else { w.visit_expr_mut(a) }
                        }
                        if !["sum", "map", "iter", "into_iter", "collect", "map_err", "fold", "map_or", "unwrap_or"].contains(&m.method.to_string().as_str()) { w.rewrite(e) }
                    } else { w.visit_expr_mut(e) }
                }
                inner(self, e);
                self.rewrite(e);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        self.rewrite(e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        for s in &b.stmts { if let Stmt::Item(_) = s { self.bad.push("nested item".into()) } }
        for st in &b.stmts { if let Stmt::Macro(m) = st { self.bad.push(format!("macro {}", s(&m.mac.path))) } }
        visit_mut::visit_block_mut(self, b);
    }
}

fn func(key: String, sig: &Signature, block: &Block) -> Value {
    let mut b = block.clone();
    let mut w = W::default();
    w.visit_block_mut(&mut b);
    let params: Vec<Value> = sig.inputs.iter().map(|a| match a {
        FnArg::Receiver(r) => json!({"name": "self", "mut": r.mutability.is_some() && r.reference.is_none(), "ty": s(&r.ty), "self": s(r)}),
        FnArg::Typed(t) => { let (n, m) = match &*t.pat { Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()), _ => { w.bad.push("parameter pattern".into()); ("x".into(), false) } };
            json!({"name": n, "mut": m, "ty": s(&t.ty)}) }
    }).collect();
    if sig.unsafety.is_some() || sig.asyncness.is_some() { w.bad.push("unsafe/async fn".into()) }
    let ret = match &sig.output { ReturnType::Default => "()".into(), ReturnType::Type(_, t) => s(t) };
    json!({"key": key, "generics": s(&sig.generics), "params": params, "ret": ret, "body": s(&b), "orig": s(block), "loops": w.loops, "bad": w.bad})
}

fn cfg_test(a: &[Attribute]) -> bool { a.iter().any(|a| s(&a.meta).replace(' ', "") == "cfg(test)") }
fn derived(a: &[Attribute]) -> bool { a.iter().any(|a| a.path().is_ident("automatically_derived")) }

fn items(its: &[Item], out: &mut Vec<Value>) {
    for i in its {
        match i {
            Item::Fn(f) if !cfg_test(&f.attrs) => out.push(func(f.sig.ident.to_string(), &f.sig, &f.block)),
            Item::Impl(m) if !cfg_test(&m.attrs) && !derived(&m.attrs) => {
                let tr = m.trait_.as_ref().map(|t| { let p = &t.1; let g = p.segments.last().unwrap(); s(g) }).unwrap_or_default();
                for x in &m.items {
                    if let ImplItem::Fn(f) = x {
                        out.push(func(format!("{}|{}|{}", tr, s(&m.self_ty), f.sig.ident), &f.sig, &f.block));
                    }
                }
            }
            Item::Trait(t) => for x in &t.items {
                if let TraitItem::Fn(f) = x {
                    if let Some(b) = &f.default { out.push(func(format!("trait|{}|{}", t.ident, f.sig.ident), &f.sig, b)) }
                    else { out.push(json!({"key": format!("decl|{}|{}", t.ident, f.sig.ident)})) }
                }
            },
            Item::Struct(x) => {
                let fs: Vec<Value> = x.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), s(&f.ty)])).collect();
                out.push(json!({"key": format!("struct {}", x.ident), "name": x.ident.to_string(), "params": x.generics.type_params().map(|t| t.ident.to_string()).collect::<Vec<_>>(),
                    "tuple": matches!(x.fields, Fields::Unnamed(_)), "unit": matches!(x.fields, Fields::Unit), "fields": fs}));
            }
            Item::Enum(x) => {
                let vs: Vec<Value> = x.variants.iter().map(|v| json!([v.ident.to_string(), v.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), s(&f.ty)])).collect::<Vec<_>>(), v.discriminant.as_ref().map(|d| s(&d.1))])).collect();
                let repr: Vec<String> = x.attrs.iter().filter(|a| a.path().is_ident("repr")).map(|a| s(&a.meta)).collect();
                out.push(json!({"key": format!("enum {}", x.ident), "name": x.ident.to_string(), "params": x.generics.type_params().map(|t| t.ident.to_string()).collect::<Vec<_>>(), "variants": vs, "repr": repr}));
            }
            Item::Const(c) => out.push(json!({"key": format!("const {}", c.ident), "name": c.ident.to_string(), "ty": s(&c.ty), "val": s(&c.expr)})),
            Item::Mod(m) if !cfg_test(&m.attrs) => if let Some((_, c)) = &m.content { items(c, out) },
            _ => {}
        }
    }
}

fn main() {
    let _ = TokenStream::new();
    let known: Vec<String> = std::env::args().nth(1).unwrap_or_default().split(',').map(String::from).collect();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let v = match std::fs::read_to_string(&l).map_err(|e| e.to_string()).and_then(|t| parse_file(&t).map_err(|e| e.to_string())) {
            Err(e) => json!({"error": e}),
            Ok(mut f) => { inline::Inl::new(&[&f], &known, true).run(&mut f); let mut o = vec![]; items(&f.items, &mut o); json!({"items": o}) }
        };
        println!("{}", v);
        std::io::stdout().flush().unwrap();
    }
}
