//! stdin lines: path of a Rust file; answers one JSON line: its functions and types, with bodies rewritten to the subset
//! Verus accepts (the parser side: iterators, strings, slice patterns, error values).  DESIGN.md lists the rewritings.
use proc_macro2::Ident;
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use syn::visit_mut::{self, VisitMut};
use syn::*;
#[path = "../inline.rs"]
mod inline;

fn s<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn verb(t: proc_macro2::TokenStream) -> Expr { Expr::Verbatim(t) }

struct W {
    /// written text is modelled
    texts: bool,
    writers: Vec<String>,
    loops: Vec<Value>,
    bad: Vec<String>,
    hoisted: Vec<(Signature, Block)>,
    ret_result_vec: bool,
    try_collect: bool,
    pre: Vec<proc_macro2::TokenStream>,
}

/// names pushed to, inserted into, assigned by a loop body (read off its tokens; annotations refer to them by role)
#[derive(Default)]
struct Roles { push: Vec<String>, ins: Vec<String>, set: Vec<String>, decl: Vec<String>, brk: bool }
fn scan(ts: proc_macro2::TokenStream, r: &mut Roles) {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = ts.into_iter().collect();
    let t: Vec<String> = v.iter().map(|x| if let T::Group(_) = x { "(group)".to_string() } else { x.to_string() }).collect();
    let word = |i: usize| matches!(v[i], T::Ident(_));
    // the path that ends before i: its start
    let path = |i: usize| { let mut j = i; while j > 0 && (word(j - 1) && !["let", "mut", "match", "if", "return", "in", "else"].contains(&t[j - 1].as_str()) || t[j - 1] == "." || matches!(v[j - 1], T::Literal(_)) && j > 1 && t[j - 2] == ".") { j -= 1 } j };
    for i in 0..v.len() {
        match &v[i] {
            T::Group(g) => scan(g.stream(), r),
            T::Ident(n) => {
                let n = n.to_string();
                if n == "break" { r.brk = true }
                if n == "let" { let mut k = i + 1; if k < v.len() && t[k] == "mut" { k += 1 } if k < v.len() && word(k) { r.decl.push(t[k].clone()) } }
                if i > 0 && t[i - 1] == "." && i + 1 < v.len() && t[i + 1] == "(group)" && ["push", "extend_from_slice", "extend", "insert"].contains(&n.as_str()) {
                    let j = path(i - 1);
                    if j < i - 1 { let x = t[j..i - 1].join(" "); if n == "insert" { r.ins.push(x) } else { r.push.push(x) } }
                }
            }
            T::Punct(p) if p.as_char() == '=' && p.spacing() == proc_macro2::Spacing::Alone && i > 0 && !matches!(&v[i - 1], T::Punct(q) if q.spacing() == proc_macro2::Spacing::Joint) => {
                let j = path(i);
                if j < i && (j == 0 || t[j - 1] != "let" && t[j - 1] != "mut" && t[j - 1] != ":" && t[j - 1] != "," && t[j - 1] != "ghost") && (j == 0 || t[j] != "ghost") { r.set.push(t[j..i].join(" ")) }
            }
            _ => {}
        }
    }
}
fn roles<X: ToTokens>(b: &X) -> Value {
    let mut r = Roles::default();
    scan(b.to_token_stream(), &mut r);
    let f = |v: &[String]| { let mut o: Vec<String> = vec![]; for x in v { if !o.contains(x) && !r.decl.contains(x) && !x.starts_with("vf_") { o.push(x.clone()) } } o };
    json!({"push": f(&r.push), "ins": f(&r.ins), "set": f(&r.set), "break": r.brk})
}
/// leaves the closure other than at its end
struct Esc(bool);
impl<'a> syn::visit::Visit<'a> for Esc {
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
}
fn escapes(e: &Expr) -> bool { let mut x = Esc(false); syn::visit::Visit::visit_expr(&mut x, e); x.0 || s(e).split(' ').any(|w| w == "return" || w == "?") }

fn meth<'a>(e: &'a Expr, name: &str) -> Option<&'a ExprMethodCall> {
    match e { Expr::MethodCall(m) if m.method == name => Some(m), Expr::Paren(p) => meth(&p.expr, name), _ => None }
}
fn call<'a>(e: &'a Expr) -> Option<(String, &'a ExprCall)> {
    if let Expr::Call(c) = e { if let Expr::Path(p) = &*c.func { return Some((s(&p.path).replace(' ', ""), c)); } }
    None
}

impl W {
    /// write!-like arguments: (the writer), what is written in order
    fn fmt(&mut self, ts: proc_macro2::TokenStream, writer: bool, nl: bool) -> Option<(Option<Expr>, Vec<proc_macro2::TokenStream>)> {
        use syn::parse::Parser;
        let mut a: Vec<Expr> = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(ts).ok()?.into_iter().collect();
        let w = if writer { if a.is_empty() { return None } Some(a.remove(0)) } else { None };
        let mut out = vec![];
        if a.is_empty() { if nl { out.push(quote!(vf_lit("\n"))); return Some((w, out)) } return if writer { None } else { Some((w, out)) } }
        let text = match a.remove(0) { Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) => l.value(), _ => return None };
        let mut named = std::collections::HashMap::new();
        let mut pos = vec![];
        for x in a { match x { Expr::Assign(x) => { named.insert(s(&x.left), (*x.right).clone()); } x => pos.push(x) } }
        for x in pos.iter_mut().chain(named.values_mut()) { self.visit_expr_mut(x) }
        let (mut lit, mut next) = (String::new(), 0);
        let c: Vec<char> = text.chars().collect();
        let mut i = 0;
        let flush = |lit: &mut String, out: &mut Vec<proc_macro2::TokenStream>| if !lit.is_empty() { let l = std::mem::take(lit); out.push(quote!(vf_lit(#l))) };
        while i < c.len() {
            match c[i] {
                '{' if i + 1 < c.len() && c[i + 1] == '{' => { lit.push('{'); i += 2 }
                '}' if i + 1 < c.len() && c[i + 1] == '}' => { lit.push('}'); i += 2 }
                '{' => {
                    let j = (i..c.len()).find(|&j| c[j] == '}')?;
                    let inner: String = c[i + 1..j].iter().collect();
                    let (name, spec) = match inner.split_once(':') { Some((n, s)) => (n.trim().to_string(), s.to_string()), None => (inner.trim().to_string(), String::new()) };
                    if spec.contains('$') || spec.contains('*') { return None }
                    let x: Expr = if name.is_empty() { next += 1; pos.get(next - 1)?.clone() } else if let Ok(k) = name.parse::<usize>() { pos.get(k)?.clone() } else { match named.get(&name) { Some(x) => x.clone(), None => parse_str(&name).ok()? } };
                    flush(&mut lit, &mut out);
                    out.push(if spec.is_empty() { quote!(vf_show(&#x)) } else { quote!(vf_show_as(&#x, #spec)) });
                    i = j + 1;
                }
                ch => { lit.push(ch); i += 1 }
            }
        }
        if nl { lit.push('\n') }
        flush(&mut lit, &mut out);
        Some((w, out))
    }
    fn new() -> W { W { texts: false, writers: vec![], loops: vec![], bad: vec![], hoisted: vec![], ret_result_vec: false, try_collect: false, pre: vec![] } }
    fn mark<X: ToTokens>(&mut self, kind: &str, x: Value, b: &X) -> (usize, Ident, Ident) {
        let n = self.loops.len();
        let mut r = roles(b);
        r["kind"] = json!(kind);
        r["x"] = x;
        r["it"] = json!(format!("vf_it{}", n));
        self.loops.push(r);
        (n, format_ident!("__VF_LOOP_{}__", n), format_ident!("vf_it{}", n))
    }
    /// an expression of iterator type, as a VIter (children already rewritten)
    fn iter(&mut self, e: &Expr) -> Option<Expr> {
        if let Some(m) = meth(e, "iter") {
            let x = &m.receiver;
            // an iterated temporary gets a name
            if let Expr::Path(_) | Expr::Field(_) = &**x { return Some(verb(quote!(#x.vf_iter()))); }
            let t = format_ident!("vf_t{}_{}", self.loops.len(), self.pre.len());
            self.pre.push(quote!(let #t = &#x;));
            return Some(verb(quote!(#t.vf_iter())));
        }
        if let Some(m) = meth(e, "into_iter") { let x = &m.receiver; return Some(verb(quote!(#x.vf_into_iter()))); }
        if let Some(m) = meth(e, "into_inner") { let x = &m.receiver; return Some(verb(quote!(#x.into_inner().vf_into_iter()))); }
        if let Some(m) = meth(e, "skip") { let (x, a) = (self.iter(&m.receiver)?, &m.args); return Some(verb(quote!(#x.vf_skip(#a)))); }
        if let Some(m) = meth(e, "chain") { let (x, y) = (self.iter(&m.receiver)?, self.iter(&m.args[0])?); return Some(verb(quote!(#x.vf_chain(#y)))); }
        if let Some(m) = meth(e, "values") { let x = &m.receiver; return Some(verb(quote!(#x.vf_values()))); }
        if let Expr::Verbatim(t) = e { if t.to_string().contains("vf_filter") { return Some(e.clone()); } }
        if let Expr::Reference(r) = e { if r.mutability.is_none() { let x = &r.expr; return Some(verb(quote!(#x.vf_iter()))); } }
        if let Expr::Range(r) = e {
            if let (Some(a), Some(b)) = (&r.start, &r.end) {
                return Some(match r.limits { RangeLimits::HalfOpen(_) => verb(quote!(vf_range(#a, #b))), RangeLimits::Closed(_) => verb(quote!(vf_range_incl(#a, #b))) });
            }
        }
        if let Expr::Paren(p) = e { return self.iter(&p.expr); }
        // args_os(): the arguments
        if let Expr::Verbatim(t) = e { if t.to_string().starts_with("vf_args") { return Some(verb(quote!(#e.vf_into_iter()))); } }
        // a Vec by value
        if let Expr::Path(_) = e { return Some(verb(quote!(#e.vf_into_iter()))); }
        None
    }
    fn lower(&mut self, e: &mut Expr) -> bool {
        // terminal adaptors with a closure: the closure body is inlined
        for k in ["any", "all", "fold", "find", "position"] {
            if let Some(m) = meth(e, k) {
                let it = match self.iter(&m.receiver) { Some(i) => i, None => continue };
                let m = m.clone();
                for a in &m.args { if let Expr::Closure(c) = a { if escapes(&c.body) { self.bad.push("return in a closure".into()) } } }
                match (k, &m.args[m.args.len() - 1]) {
                    ("any", Expr::Closure(c)) | ("all", Expr::Closure(c)) => {
                        let (p, b) = (&c.inputs[0], &c.body);
                        let blk = b.clone();
                        let (_, mk, v) = self.mark(k, json!(s(&m.receiver)), &blk);
                        let any = k == "any";
                        let r = format_ident!("vf_r{}", self.loops.len() - 1);
                        let test = if any { quote!(!#r && #v.more()) } else { quote!(#r && #v.more()) };
                        let st = if any { quote!(if #b { #r = true; }) } else { quote!(if !(#b) { #r = false; }) };
                        let gs = format_ident!("vf_s{}", self.loops.len() - 1); let pre = std::mem::take(&mut self.pre); *e = verb(quote!({ #(#pre)* let mut #v = #it; let ghost #gs = #v.all(); let mut #r = !#any; while #test #mk { let #p = #v.take(); #st } #r }));
                        return true;
                    }
                    ("fold", Expr::Closure(c)) => {
                        let (acc, p, b, init) = (&c.inputs[0], &c.inputs[1], &c.body, &m.args[0]);
                        let a = match acc { Pat::Ident(i) => i.ident.clone(), _ => { self.bad.push("fold pattern".into()); return true } };
                        let blk = quote!(#a = #b);
                        let (_, mk, v) = self.mark("fold", json!(a.to_string()), &blk);
                        let gs = format_ident!("vf_s{}", self.loops.len() - 1); let pre = std::mem::take(&mut self.pre); *e = verb(quote!({ #(#pre)* let mut #a = #init; let mut #v = #it; let ghost #gs = #v.all(); while #v.more() #mk { let #p = #v.take(); #a = #b; } #a }));
                        return true;
                    }
                    ("find", Expr::Closure(c)) => {
                        let (p, b) = (&c.inputs[0], &c.body);
                        let blk = b.clone();
                        let (n, mk, v) = self.mark("find", json!(s(&m.receiver)), &blk);
                        let r = format_ident!("vf_r{}", n);
                        let gs = format_ident!("vf_s{}", self.loops.len() - 1); let pre = std::mem::take(&mut self.pre); *e = verb(quote!({ #(#pre)* let mut #v = #it; let ghost #gs = #v.all(); let mut #r = None; while #r.is_none() && #v.more() #mk { let vf_x = #v.take(); let vf_y = { let #p = &vf_x; #b }; if vf_y { #r = Some(vf_x); } } #r }));
                        return true;
                    }
                    _ => {}
                }
            }
        }
        if let Some(m) = meth(e, "filter") {
            if let Some(it) = self.iter(&m.receiver) {
                if let Some(Expr::Closure(c)) = m.args.first() {
                    if escapes(&c.body) { self.bad.push("return in a closure".into()) }
                    let (p, b) = (c.inputs[0].clone(), c.body.clone());
                    let x = s(&m.receiver);
                    let (n, mk, v) = self.mark("filter", json!(x), &b);
                    let o = format_ident!("vf_filter{}", n);
                    self.loops[n]["push"] = json!([o.to_string()]);
                    let gs = format_ident!("vf_s{}", n); let pre = std::mem::take(&mut self.pre);
                    *e = verb(quote!({ #(#pre)* let mut #o = Vec::new(); let mut #v = #it; let ghost #gs = #v.all(); while #v.more() #mk { let vf_x = #v.take(); if { let #p = &vf_x; #b } { #o.push(vf_x); } } #o.vf_into_iter() }));
                    return true;
                }
            }
        }
        if let Some(m) = meth(e, "collect") {
            if let Some(map) = meth(&m.receiver, "map") {
                if let Some(it) = self.iter(&map.receiver) {
                    let map = map.clone();
                    if let Expr::Closure(c) = &map.args[0] { if escapes(&c.body) { self.bad.push("return in a closure".into()) } }
                    let tried = std::mem::replace(&mut self.try_collect, false);
                    let res = self.ret_result_vec && m.turbofish.is_none() || tried;
                    if !res && m.turbofish.as_ref().map(|t| s(&t.args).contains("Result")).unwrap_or(false) { self.bad.push("collect into a Result".into()) }
                    let fin = if tried { quote!() } else { quote!(Ok) };
                    let (p, b) = match &map.args[0] {
                        Expr::Closure(c) => { let (p, b) = (&c.inputs[0], &c.body); (quote!(#p), quote!(#b)) }
                        f => (quote!(vf_x), quote!(#f(vf_x))),
                    };
                    let blk = b.clone();
                    let (n, mk, v) = self.mark(if res { "collect_result" } else { "collect" }, json!(s(&map.receiver)), &blk);
                    let o = format_ident!("vf_out{}", n);
                    self.loops[n]["push"] = json!([o.to_string()]);
                    let gs = format_ident!("vf_s{}", self.loops.len() - 1); let pre = std::mem::take(&mut self.pre); *e = if res { verb(quote!({ #(#pre)* let mut #o = Vec::new(); let mut #v = #it; let ghost #gs = #v.all(); while #v.more() #mk { let #p = #v.take(); match #b { Ok(vf_y) => { #o.push(vf_y); } Err(vf_e) => { return Err(vf_e); } } } #fin (#o) })) }
                        else { verb(quote!({ #(#pre)* let mut #o = Vec::new(); let mut #v = #it; let ghost #gs = #v.all(); while #v.more() #mk { let #p = #v.take(); #o.push(#b); } #o })) };
                    return true;
                }
            }
        }
        false
    }
    fn rewrite(&mut self, e: &mut Expr) {
        if self.lower(e) { return; }
        if let Expr::MethodCall(m) = e {
            let (x, a, n) = (&m.receiver, &m.args, m.method.to_string());
            for y in a { if let Expr::Closure(c) = y { if escapes(&c.body) { self.bad.push("return in a closure".into()) } } }
            let r = match (n.as_str(), a.len()) {
                ("to_string", 0) => quote!(#x.vf_to_string()),
                ("to_owned", 0) => quote!(#x.vf_to_owned()),
                ("is_empty", 0) => quote!(#x.vf_is_empty()),
                ("trim", 0) => quote!(#x.vf_trim()),
                ("to_lowercase", 0) => quote!(#x.vf_lower()),
                ("starts_with", 1) => match &a[0] {
                    Expr::Closure(c) => { let t = s(&c.body).replace(' ', ""); let v = match &c.inputs[0] { Pat::Type(t) => s(&t.pat), p => s(p) };
                        if t == format!("{}.is_ascii_digit()", v) { quote!(#x.vf_starts_digit()) } else { self.bad.push(format!("starts_with {}", t)); return } }
                    Expr::Path(p) => { if s(p).replace(' ', "").ends_with("is_ascii_digit") { quote!(#x.vf_starts_digit()) } else { self.bad.push("starts_with".into()); return } }
                    l => quote!(#x.vf_starts_with(#l)),
                },
                ("ends_with", 1) => { let l = &a[0]; if let Expr::Closure(_) = l { self.bad.push("ends_with".into()); return } quote!(#x.vf_ends_with(#l)) }
                ("trim_start_matches", 1) => { let l = &a[0]; quote!(#x.vf_trim_start(#l)) }
                ("strip_prefix", 1) => { let l = &a[0]; quote!(#x.vf_strip_prefix(#l)) }
                ("parse", 0) => { let t = m.turbofish.as_ref().map(|t| s(&t.args)).unwrap_or_default();
                    match t.as_str() { "u32" => quote!(#x.vf_parse_u32()), "i32" => quote!(#x.vf_parse_i32()), "" => quote!(#x.vf_parse()), _ => { self.bad.push(format!("parse {}", t)); return } } }
                ("expect", 1) | ("unwrap", 0) => quote!(#x.vf_unwrap()),
                ("into", 0) => quote!(vf_err(#x)),
                ("ok_or", 1) => { let d = &a[0]; quote!(vf_ok_or(#x, vf_err(#d))) }
                ("map", 1) => match &a[0] {
                    // of an Option (a Result's is told by what follows it)
                    Expr::Closure(c) => { let (p, b) = (&c.inputs[0], &c.body); quote!((match #x { Some(#p) => Some(#b), None => None })) }
                    f => quote!(match #x { Ok(vf_v) => Ok(#f(vf_v)), Err(vf_e) => Err(vf_e) }),
                },
                ("map_err", 1) => match &a[0] {
                    Expr::Closure(c) => { let (p, b) = (&c.inputs[0], &c.body); quote!(match #x { Ok(vf_v) => Ok(vf_v), Err(#p) => Err(#b) }) }
                    f => quote!(match #x { Ok(vf_v) => Ok(vf_v), Err(vf_e) => Err(#f(vf_e)) }),
                },
                ("unwrap_or_else", 1) => match &a[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 => { let (p, b) = (&c.inputs[0], &c.body); quote!(match #x { Ok(vf_v) => vf_v, Err(#p) => #b }) }
                    Expr::Closure(c) if c.inputs.is_empty() => { let b = &c.body; quote!(match #x { Some(vf_v) => vf_v, None => #b }) }
                    _ => { self.bad.push("unwrap_or_else".into()); return }
                },
                ("unwrap_or", 1) if self.texts => { let d = &a[0]; quote!((match #x { Some(vf_v) => vf_v, None => #d })) }
                ("as_deref", 0) => quote!(vf_as_deref(&#x)),
                ("join", 1) => { let y = &a[0]; quote!(#x.vf_join(#y)) }
                ("nth", 1) => match meth(x, "split") { Some(k) => { let (y, p, i) = (&k.receiver, &k.args[0], &a[0]); quote!(vf_split_nth(#y, #p, #i)) } None => { self.bad.push("nth".into()); return } },
                ("next", 0) | ("len", 0) | ("to_string_lossy", 0) | ("unwrap_or_default", 0) if self.texts && s(x).contains("vf_args") => { let f = format_ident!("vf_{}", n); quote!(#x.#f()) }
                ("collect", 0) if self.texts && s(x).contains("vf_args") => { let y = self.iter(x); match y { Some(y) => quote!(#y.vf_collect()), None => return } }
                ("next", 0) => match meth(x, "chars") { Some(k) => { let y = &k.receiver; quote!(vf_first(#y)) } None => return },
                ("is_numeric", 0) => quote!(vf_is_numeric(#x)),
                ("as_ref", 0) if self.texts && s(x).contains("vf_v . push") => quote!(vf_slice(&#x)),
                ("as_ref", 0) if self.texts => quote!(#x.vf_as_ref()),
                ("is_some", 0) | ("is_none", 0) | ("is_ok", 0) | ("is_err", 0) => return,
                ("extend_from_slice", 1) => { let y = &a[0]; quote!(vf_extend(&mut #x, #y)) }
                ("extend", 1) => match &a[0] { Expr::Path(y) => quote!(vf_extend_own(&mut #x, #y)), _ => { self.bad.push("extend".into()); return } },
                ("iter", 0) | ("into_iter", 0) | ("skip", 1) | ("chain", 1) | ("into_inner", 0) => return,
                _ => return,
            };
            *e = verb(r);
            return;
        }
        match e {
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (slit(&b.left) || slit(&b.right)) => {
                let (x, l) = if slit(&b.right) { (&b.left, &b.right) } else { (&b.right, &b.left) };
                let r = if matches!(b.op, BinOp::Eq(_)) { quote!((#x).vf_is(#l)) } else { quote!((!(#x).vf_is(#l))) };
                *e = verb(r);
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::Path(p) = &*r.expr { if let Some(i) = p.path.get_ident() { if self.writers.contains(&i.to_string()) { *e = verb(quote!(#i)); } } }
            }
            Expr::Call(_) => {
                let (n, c) = match call(e) { Some(x) => x, None => return };
                let a = &c.args;
                let r = if let Some(t) = n.strip_suffix("::from") {
                    let t: Path = parse_str(t).unwrap();
                    quote!(#t::vf_from(#a))
                } else if let Some(t) = n.strip_suffix("::try_from") {
                    let t: Path = parse_str(t).unwrap();
                    quote!(Ok::<_, VErr>(#t::vf_from(#a)))
                } else if n == "i32::from_str_radix" { quote!(vf_radix_i32(#a)) }
                else if n == "u32::from_str_radix" { quote!(vf_radix_u32(#a)) }
                else if self.texts && last(&n) == "args_os" { quote!(vf_args(&mut *vf_w)) }
                else if self.texts && last(&n) == "args" { quote!(vf_args_str(&mut *vf_w)) }
                else if self.texts && last(&n) == "read_to_string" { quote!(vf_read(&mut *vf_w, #a)) }
                else if self.texts && last(&n) == "exit" { quote!(vf_exit(&mut *vf_w, #a)) }
                else { return };
                *e = verb(r);
            }
            Expr::Cast(c) => { let (x, t) = (&c.expr, &c.ty); *e = verb(quote!((#[verifier::truncate] (#x as #t)))); }
            Expr::Match(m) if m.arms.iter().any(|a| has_slice(&a.pat)) => {
                let mx = m.arms.iter().map(|a| match &a.pat { Pat::Slice(p) => p.elems.len(), _ => 0 }).max().unwrap();
                let x = match meth(&m.expr, "as_slice") { Some(k) => (*k.receiver).clone(), None => match &*m.expr { Expr::Index(i) if s(&i.index) == ".." => (*i.expr).clone(), Expr::Reference(r) => (*r.expr).clone(), o => o.clone() } };
                let mut arms = vec![];
                for a in &m.arms {
                    let (g, b) = (a.guard.as_ref().map(|g| { let x = &g.1; quote!(if #x) }), &a.body);
                    match &a.pat {
                        Pat::Slice(p) => {
                            if p.elems.iter().any(|x| matches!(x, Pat::Rest(_)) || s(x).contains("..")) { self.bad.push("rest pattern".into()) }
                            let n = p.elems.len();
                            let mut ps: Vec<_> = p.elems.iter().map(|p| quote!(Some(#p))).collect();
                            while ps.len() < mx { ps.push(quote!(_)) }
                            arms.push(quote!((#n, #(#ps),*) #g => #b,));
                        }
                        Pat::Wild(_) => arms.push(quote!(_ #g => #b,)),
                        p => self.bad.push(format!("pattern {}", s(p))),
                    }
                }
                let gets = (0..mx).map(|i| quote!(vf_get(&#x, #i)));
                *e = verb(quote!(match (#x.len(), #(#gets),*) { #(#arms)* }));
            }
            Expr::Match(m) if m.arms.iter().any(|a| has_str(&a.pat)) => {
                // string patterns: an if chain, in order
                let x = &m.expr;
                let n = self.loops.len() + self.hoisted.len();
                let v = format_ident!("vf_m{}", n);
                let mut out = quote!(vf_unreachable());
                for a in m.arms.iter().rev() {
                    let b = &a.body;
                    let g = a.guard.as_ref().map(|g| (*g.1).clone());
                    match strs(&a.pat) {
                        Some(l) => { let c = quote!((#(vf_eq(#v, #l))||*)); let c = match g { Some(g) => quote!(#c && (#g)), None => c }; out = quote!(if #c { #b } else { #out }); }
                        None => match &a.pat {
                            Pat::Wild(_) => out = match g { Some(g) => quote!(if #g { #b } else { #out }), None => quote!({ #b }) },
                            Pat::Ident(i) => { let i = &i.ident; out = match g { Some(g) => quote!(({ let #i = #v; if #g { #b } else { #out } })), None => quote!({ let #i = #v; #b }) } }
                            p => { self.bad.push(format!("string pattern {}", s(p))); return }
                        },
                    }
                }
                *e = verb(quote!({ let #v = #x; #out }));
            }
            Expr::ForLoop(f) => {
                let it = match self.iter(&f.expr) { Some(i) => i, None => { self.bad.push(format!("for over {}", s(&f.expr))); return } };
                let (p, b) = (&f.pat, &f.body);
                let p: Pat = if let Pat::Wild(_) = &**p { parse_quote!(_vf) } else { (**p).clone() };
                let b2 = b.clone();
                let (_, mk, v) = self.mark("for", json!(s(&f.expr)), &b2);
                let st = &b2.stmts;
                let gs = format_ident!("vf_s{}", self.loops.len() - 1); let pre = std::mem::take(&mut self.pre); *e = verb(quote!({ #(#pre)* let mut #v = #it; let ghost #gs = #v.all(); while #v.more() #mk { let #p = #v.take(); #(#st)* } }));
            }
            Expr::While(w) => {
                let (c, b) = (w.cond.clone(), w.body.clone());
                if let Expr::Let(_) = &*c { self.bad.push("while let".into()) }
                let (_, mk, _) = self.mark("while", json!(s(&c)), &b);
                *e = verb(quote!(while #c #mk #b));
            }
            Expr::Loop(l) => { let b = l.body.clone(); let (_, mk, _) = self.mark("loop", Value::Null, &b); *e = verb(quote!(loop #mk #b)); }
            Expr::Closure(c) => self.bad.push(format!("closure {}", s(c))),
            Expr::Unsafe(_) => self.bad.push("unsafe".into()),
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "matches" => {
                        struct M(Expr, Pat, Option<Expr>);
                        impl syn::parse::Parse for M { fn parse(i: syn::parse::ParseStream) -> Result<Self> { let a = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
                            let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<Token![,]>>(); Ok(M(a, p, g)) } }
                        match m.mac.parse_body::<M>() {
                            Ok(M(mut x, p, mut g)) => { self.visit_expr_mut(&mut x); if let Some(g) = &mut g { self.visit_expr_mut(g) }
                                let g = g.map(|g| quote!(if #g)); *e = verb(quote!((match #x { #p #g => true, _ => false }))) }
                            Err(_) => self.bad.push("matches".into()),
                        }
                    }
                    "unreachable" | "panic" | "todo" | "unimplemented" => *e = verb(quote!(vf_unreachable())),
                    "format" => { match self.fmt(m.mac.tokens.clone(), false, false) { Some((_, p)) => *e = if self.texts { verb(quote!({ let mut vf_f = vf_text(); #(vf_f.#p;)* vf_f })) } else { let a = p.iter().filter(|q| q.to_string().starts_with("vf_show")).map(|q| { let f = format_ident!("{}", if q.to_string().starts_with("vf_show_as") { "vf_arg_as" } else { "vf_arg" }); let g = match q.clone().into_iter().nth(1) { Some(proc_macro2::TokenTree::Group(g)) => g.stream(), _ => quote!() }; quote!(#f(#g)) }); verb(quote!({ #(#a;)* vf_format() })) }, None => self.bad.push("format".into()) } }
                    "write" | "writeln" => { match self.fmt(m.mac.tokens.clone(), true, n == "writeln") { Some((w, p)) => { let w = w.unwrap(); *e = verb(quote!(({ #(#w.#p;)* vf_wrote() }))) } None => self.bad.push("write".into()) } }
                    "print" | "println" | "eprint" | "eprintln" => { let k = format_ident!("{}", if n.starts_with('e') { "vf_eprint" } else { "vf_print" });
                        match self.fmt(m.mac.tokens.clone(), false, n.ends_with("ln")) { Some((_, p)) => *e = verb(quote!({ let mut vf_f = vf_text(); #(vf_f.#p;)* #k(&mut *vf_w, &vf_f) })), None => self.bad.push("print".into()) } }
                    "include_str" => *e = verb(quote!(vf_include())),
                    "vec" if m.mac.tokens.is_empty() => *e = verb(quote!(Vec::new())),
                    "vec" => {
                        let t: std::result::Result<punctuated::Punctuated<Expr, Token![,]>, _> = m.mac.parse_body_with(punctuated::Punctuated::parse_terminated);
                        match t { Ok(p) => { let mut xs: Vec<Expr> = p.into_iter().collect(); for x in &mut xs { self.visit_expr_mut(x) } *e = verb(quote!({ let mut vf_v = Vec::new(); #(vf_v.push(#xs);)* vf_v })) } Err(_) => self.bad.push("vec".into()) }
                    }
                    _ => self.bad.push(format!("macro {}", n)),
                }
            }
            _ => {}
        }
    }
}

fn slit(e: &Expr) -> bool { matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Str(_))) }

/// the value of `"lit".split("p").nth(n).unwrap_or("d").trim()` and of parts of it
fn fold(e: &Expr) -> Option<String> {
    if let Expr::Paren(p) = e { return fold(&p.expr); }
    if let Expr::Group(p) = e { return fold(&p.expr); }
    if let Expr::Lit(l) = e { if let Lit::Str(x) = &l.lit { return Some(x.value()); } }
    if let Some(m) = meth(e, "trim") { return Some(fold(&m.receiver)?.trim().to_string()); }
    if let Some(m) = meth(e, "unwrap_or") {
        let d = fold(m.args.first()?)?;
        let k = meth(&m.receiver, "nth")?;
        let n: usize = match k.args.first()? { Expr::Lit(l) => match &l.lit { Lit::Int(i) => i.base10_parse().ok()?, _ => return None }, _ => return None };
        let q = meth(&k.receiver, "split")?;
        let (t, p) = (fold(&q.receiver)?, fold(q.args.first()?)?);
        return Some(t.split(&p[..]).nth(n).map(str::to_string).unwrap_or(d));
    }
    None
}
fn words(e: &Expr) -> Option<Vec<Lit>> {
    match e {
        Expr::Paren(p) => words(&p.expr),
        Expr::Group(p) => words(&p.expr),
        Expr::Reference(r) => words(&r.expr),
        Expr::Array(a) => a.elems.iter().map(|x| match x { Expr::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(l.lit.clone()), _ => None }).collect(),
        _ => None,
    }
}
fn last(n: &str) -> &str { n.rsplit("::").next().unwrap() }
fn has_slice(p: &Pat) -> bool { matches!(p, Pat::Slice(_)) }
fn strs(p: &Pat) -> Option<Vec<Lit>> {
    match p {
        Pat::Lit(l) => if let Lit::Str(_) = &l.lit { Some(vec![l.lit.clone()]) } else { None },
        Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(strs(c)?) } Some(v) }
        Pat::Paren(p) => strs(&p.pat),
        _ => None,
    }
}
fn has_str(p: &Pat) -> bool { strs(p).is_some() }

impl VisitMut for W {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a constant string cut out of a constant string: the string
        if self.texts && matches!(e, Expr::MethodCall(_)) { if let Some(t) = fold(e) { *e = parse_quote!(#t); return; } }
        // text appended to a String
        if self.texts { if let Some(m) = meth(e, "push_str").or_else(|| meth(e, "push")) { if m.args.len() == 1 {
            let r = &m.receiver;
            let (str_, a) = (m.method == "push_str", &m.args[0]);
            let lit = match a { Expr::Lit(l) => match &l.lit { Lit::Str(x) if str_ => Some(x.value()), Lit::Char(c) if !str_ => Some(c.value().to_string()), _ => None }, _ => None };
            match lit {
                Some(t) if !t.is_empty() => { *e = verb(quote!(#r.vf_lit(#t))); return; }
                None if str_ => { let mut a = a.clone(); self.visit_expr_mut(&mut a); *e = verb(quote!(#r.vf_show(&#a))); return; }
                _ => {}
            }
        } } }
        // ["a", "b"].contains(&x): one of the words
        if let Some(m) = meth(e, "contains") { if let Some(ws) = words(&m.receiver) { if m.args.len() == 1 && ws.len() > 0 {
            let x = match &m.args[0] { Expr::Reference(r) => (*r.expr).clone(), x => parse_quote!(*#x) };
            *e = parse_quote!(match #x { #(#ws)|* => true, _ => false });
        } } }
        // while let Some(p) = it.next() { .. }: for p in it { .. }  (that `it` is not used afterwards is the compiler's to check)
        if self.texts { if let Expr::While(w) = e { if let Expr::Let(l) = &*w.cond { if let (Pat::TupleStruct(p), Some(m)) = (&*l.pat, meth(&l.expr, "next")) {
            if s(&p.path) == "Some" && p.elems.len() == 1 && w.label.is_none() && matches!(&*m.receiver, Expr::Path(_)) {
                let (p, r, b) = (&p.elems[0], &m.receiver, &w.body);
                *e = parse_quote!(for #p in #r #b);
            }
        } } } }
        // X.map(f).collect::<Result<Vec<_>>>()?
        if let Expr::Try(t) = e {
            if let Some(m) = meth(&t.expr, "collect") {
                if m.turbofish.as_ref().map(|t| s(&t.args).contains("Result")).unwrap_or(false) {
                    self.try_collect = true;
                    self.visit_expr_mut(&mut t.expr);
                    if std::mem::replace(&mut self.try_collect, false) { self.bad.push("collect".into()) }
                    let x = (*t.expr).clone();
                    *e = x;
                    return;
                }
            }
        }
        // R.map(|p| B).unwrap_or_else(|e| D), .map_err(f): R is a Result
        if let Expr::MethodCall(m) = e {
            let one = m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() == 1);
            if m.method == "map_err" || m.method == "unwrap_or_else" && one {
                if let Some(k) = meth(&m.receiver, "map") { if let Some(Expr::Closure(c)) = k.args.first() {
                    if escapes(&c.body) { self.bad.push("return in a closure".into()) }
                    let (x, p, b) = (&k.receiver, &c.inputs[0], &c.body);
                    let r: Expr = parse_quote!((match #x { Ok(#p) => Ok(#b), Err(vf_e) => Err(vf_e) }));
                    *m.receiver = r;
                } }
            }
        }
        // closures directly given to an adaptor are visited as bodies, the adaptor inlines them
        if let Expr::MethodCall(m) = e {
            let k = m.method.to_string();
            if ["any", "all", "fold", "find", "map", "map_err", "unwrap_or_else", "starts_with", "collect", "filter"].contains(&k.as_str()) {
                if k == "collect" {
                    // do not rewrite X.map(..) on its own
                    if let Expr::MethodCall(map) = &mut *m.receiver {
                        if map.method == "map" {
                            self.visit_expr_mut(&mut map.receiver);
                            for a in map.args.iter_mut() { if let Expr::Closure(c) = a { self.visit_expr_mut(&mut c.body) } else { self.visit_expr_mut(a) } }
                            self.rewrite(e);
                            return;
                        }
                    }
                }
                self.visit_expr_mut(&mut m.receiver);
                for a in m.args.iter_mut() { if let Expr::Closure(c) = a { if k != "starts_with" { self.visit_expr_mut(&mut c.body) } } else { self.visit_expr_mut(a) } }
                self.rewrite(e);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        self.rewrite(e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut keep = vec![];
        for st in b.stmts.drain(..) {
            match st {
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(Item::Fn(f)) => self.hoisted.push((f.sig, *f.block)),
                Stmt::Item(i) => { self.bad.push("nested item".into()); keep.push(Stmt::Item(i)) }
                Stmt::Macro(m) => {
                    // statement macros as expressions
                    let mac = m.mac.clone();
                    let mut e: Expr = Expr::Macro(ExprMacro { attrs: vec![], mac });
                    self.rewrite(&mut e);
                    keep.push(Stmt::Expr(e, m.semi_token.or(Some(Default::default()))));
                }
                o => keep.push(o),
            }
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
    }
}

/// X.for_each(f), X.try_for_each(f)?: a for loop over X
fn each(e: &Expr, tried: bool) -> Option<Stmt> {
    let m = meth(e, if tried { "try_for_each" } else { "for_each" })?;
    let c = match &m.args[0] { Expr::Closure(c) if c.inputs.len() == 1 => c, _ => return None };
    struct R(bool);
    impl<'a> syn::visit::Visit<'a> for R {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut r = R(false);
    syn::visit::Visit::visit_expr(&mut r, &c.body);
    if r.0 || !tried && escapes(&c.body) { return None }
    let (x, p) = (&m.receiver, &c.inputs[0]);
    let p = if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() };
    let mut b = match &*c.body { Expr::Block(b) => b.block.clone(), o => parse_quote!({ #o }) };
    if tried {
        if let Some(Stmt::Expr(l, None)) = b.stmts.pop() { if s(&l) != "Ok (())" { b.stmts.push(parse_quote!(#l?;)); } } else { return None }
    }
    Some(parse_quote!(for #p in #x #b))
}
struct Each;
impl VisitMut for Each {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for st in b.stmts.iter_mut() {
            let n = match st { Stmt::Expr(Expr::Try(t), Some(_)) => each(&t.expr, true), Stmt::Expr(x, Some(_)) => each(x, false), _ => None };
            if let Some(n) = n { *st = n }
        }
        visit_mut::visit_block_mut(self, b);
    }
}
thread_local! { static TEXTS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn func(key: String, sig: &Signature, block: &Block, out: &mut Vec<Value>) {
    let mut b = block.clone();
    // the last expression of the function: its error is the function's
    if let Some(Stmt::Expr(x, None)) = b.stmts.last() { if let Some(n) = each(x, true) { b.stmts.pop(); b.stmts.push(n); b.stmts.push(parse_quote!(return Ok(());)); let l = b.stmts.len(); b.stmts[l - 1] = Stmt::Expr(parse_quote!(Ok(())), None); } }
    Each.visit_block_mut(&mut b);
    let mut w = W::new();
    let ret = match &sig.output { ReturnType::Default => "()".to_string(), ReturnType::Type(_, t) => s(t) };
    w.ret_result_vec = ret.replace(' ', "").contains("Result<Vec<");
    w.texts = TEXTS.with(|t| t.get());
    let gen = s(&sig.generics) + " " + &sig.generics.where_clause.as_ref().map(s).unwrap_or_default();
    for a in &sig.inputs { if let FnArg::Typed(t) = a { if let Pat::Ident(i) = &*t.pat {
        let ty = s(&t.ty).replace("& mut ", "");
        if ty.contains("Formatter") || gen.contains(&format!("{} : std :: fmt :: Write", ty)) || gen.contains(&format!("{} : fmt :: Write", ty)) || gen.contains(&format!("{} : Write", ty)) { w.writers.push(i.ident.to_string()) }
    } } }
    w.visit_block_mut(&mut b);
    let params: Vec<Value> = sig.inputs.iter().map(|a| match a {
        FnArg::Receiver(r) => json!({"name": "self", "mut": r.mutability.is_some() && r.reference.is_none(), "ty": s(&r.ty), "self": s(r)}),
        FnArg::Typed(t) => { let (n, m) = match &*t.pat { Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()), _ => { w.bad.push("parameter pattern".into()); ("x".into(), false) } };
            json!({"name": n, "mut": m, "ty": s(&t.ty)}) }
    }).collect();
    if sig.unsafety.is_some() || sig.asyncness.is_some() { w.bad.push("unsafe/async fn".into()) }
    for (hs, hb) in std::mem::take(&mut w.hoisted) { func(format!("{}/{}", key, hs.ident), &hs, &hb, out) }
    out.push(json!({"key": key, "name": sig.ident.to_string(), "generics": s(&sig.generics), "where": sig.generics.where_clause.as_ref().map(|w| s(w)), "params": params, "ret": ret, "body": s(&b), "orig": s(block), "loops": w.loops, "bad": w.bad}));
}

fn cfg_test(a: &[Attribute]) -> bool { a.iter().any(|a| s(&a.meta).replace(' ', "") == "cfg(test)") }

fn items(its: &[Item], out: &mut Vec<Value>) {
    for i in its {
        match i {
            Item::Fn(f) if !cfg_test(&f.attrs) => func(f.sig.ident.to_string(), &f.sig, &f.block, out),
            Item::Impl(m) if !cfg_test(&m.attrs) => {
                let tr = m.trait_.as_ref().map(|t| s(t.1.segments.last().unwrap())).unwrap_or_default();
                let gen = s(&m.generics);
                for x in &m.items {
                    if let ImplItem::Fn(f) = x {
                        if cfg_test(&f.attrs) { continue }
                        let at = out.len();
                        func(format!("{}|{}|{}", tr, s(&m.self_ty), f.sig.ident), &f.sig, &f.block, out);
                        for v in &mut out[at..] { v["impl_generics"] = json!(gen); }
                    }
                }
            }
            Item::Trait(t) => out.push(json!({"key": format!("trait {}", t.ident), "fns": t.items.iter().filter_map(|x| if let TraitItem::Fn(f) = x { Some(f.sig.ident.to_string()) } else { None }).collect::<Vec<_>>()})),
            Item::Struct(x) => {
                let fs: Vec<Value> = x.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), s(&f.ty)])).collect();
                out.push(json!({"key": format!("struct {}", x.ident), "name": x.ident.to_string(), "generics": s(&x.generics), "derive": x.attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| s(&a.meta)).collect::<Vec<_>>().join(" "),
                    "tuple": matches!(x.fields, Fields::Unnamed(_)), "unit": matches!(x.fields, Fields::Unit), "fields": fs}));
            }
            Item::Enum(x) => {
                let vs: Vec<Value> = x.variants.iter().map(|v| json!([v.ident.to_string(), v.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), s(&f.ty)])).collect::<Vec<_>>(), v.discriminant.as_ref().map(|d| s(&d.1))])).collect();
                out.push(json!({"key": format!("enum {}", x.ident), "name": x.ident.to_string(), "generics": s(&x.generics), "derive": x.attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| s(&a.meta)).collect::<Vec<_>>().join(" "), "variants": vs}));
            }
            Item::Mod(m) if !cfg_test(&m.attrs) => if let Some((_, c)) = &m.content { items(c, out) },
            _ => {}
        }
    }
}

fn main() {
    let known: Vec<String> = std::env::args().nth(1).unwrap_or_default().split(',').map(String::from).collect();
    let mut fs: Vec<std::result::Result<File, String>> = std::io::stdin().lock().lines().map(|l| std::fs::read_to_string(l.unwrap()).map_err(|e| e.to_string()).and_then(|t| parse_file(&t).map_err(|e| e.to_string()))).collect();
    TEXTS.with(|t| t.set(std::env::args().nth(2).as_deref() == Some("texts")));
    let mut inl = inline::Inl::new(&fs.iter().filter_map(|f| f.as_ref().ok()).collect::<Vec<_>>(), &known, true);
    for f in fs.iter_mut() {
        let v = match f {
            Err(e) => json!({"error": e}),
            Ok(f) => { inl.run(f); let mut o = vec![]; items(&f.items, &mut o); json!({"items": o}) }
        };
        println!("{}", v);
        std::io::stdout().flush().unwrap();
    }
}
