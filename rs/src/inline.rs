//! Functions without a contract of their own (helpers) are verified as part of their callers: a call is replaced by the
//! body, its parameters bound first, in order.  Only where that means the same: no way out of the body other than its end,
//! or the ways out are those of the caller (`helper(..)?` and errors only; or the call is what the caller returns).
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn s<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn cfg_test(a: &[Attribute]) -> bool { a.iter().any(|a| s(&a.meta).replace(' ', "") == "cfg(test)") }

#[derive(Clone)]
struct Helper { sig: Signature, block: Block, ty: Option<Type>, exit: Exit, clo: bool }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Exit { End, Error, Any }

#[derive(Default)]
struct Found { fns: Vec<(Option<Type>, bool, Signature, Block)>, consts: Vec<(String, Type, Expr)>, ty: Option<Type>, tr: bool }
impl<'a> Visit<'a> for Found {
    fn visit_item_impl(&mut self, m: &'a ItemImpl) {
        if cfg_test(&m.attrs) || m.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) { return }
        let old = (self.ty.replace((*m.self_ty).clone()), std::mem::replace(&mut self.tr, m.trait_.is_some()));
        for i in &m.items { if let ImplItem::Fn(f) = i { if !cfg_test(&f.attrs) { self.fns.push((self.ty.clone(), self.tr, f.sig.clone(), f.block.clone())); visit::visit_block(self, &f.block) } } }
        self.ty = old.0; self.tr = old.1;
    }
    fn visit_item_trait(&mut self, t: &'a ItemTrait) {
        for i in &t.items { if let TraitItem::Fn(f) = i { if let Some(b) = &f.default { self.fns.push((None, true, f.sig.clone(), b.clone())) } } }
    }
    fn visit_item_fn(&mut self, f: &'a ItemFn) { if !cfg_test(&f.attrs) { let t = self.ty.take(); self.fns.push((None, false, f.sig.clone(), (*f.block).clone())); visit::visit_block(self, &f.block); self.ty = t } }
    fn visit_item_mod(&mut self, m: &'a ItemMod) { if !cfg_test(&m.attrs) { visit::visit_item_mod(self, m) } }
    fn visit_item_const(&mut self, c: &'a ItemConst) { self.consts.push((c.ident.to_string(), (*c.ty).clone(), (*c.expr).clone())) }
}

fn leaves(ts: TokenStream) -> bool {
    ts.into_iter().any(|t| match t { TokenTree::Group(g) => leaves(g.stream()), TokenTree::Ident(i) => i == "return", TokenTree::Punct(p) => p.as_char() == '?', _ => false })
}
/// the ways out of a body
struct Outs(Exit);
impl<'a> Visit<'a> for Outs {
    fn visit_expr_try(&mut self, t: &'a ExprTry) { if self.0 == Exit::End { self.0 = Exit::Error } visit::visit_expr_try(self, t) }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        let err = r.expr.as_ref().map(|e| { let t = s(e); t.starts_with("Err (") || t == "None" }).unwrap_or(false);
        if !err { self.0 = Exit::Any } else if self.0 == Exit::End { self.0 = Exit::Error }
        visit::visit_expr_return(self, r)
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_expr_macro(&mut self, m: &'a ExprMacro) { if leaves(m.mac.tokens.clone()) { self.0 = Exit::Any } }
    fn visit_stmt_macro(&mut self, m: &'a StmtMacro) { if leaves(m.mac.tokens.clone()) { self.0 = Exit::Any } }
}
fn outs(b: &Block) -> Exit { let mut o = Outs(Exit::End); o.visit_block(b); o.0 }

/// `if c { ..; return x; } rest` is `if c { ..; x } else { rest }`
fn deret(b: &mut Block) {
    if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last() {
        if let Some(e) = r.expr.clone() { let n = b.stmts.len() - 1; b.stmts[n] = Stmt::Expr(*e, None); }
    }
    for i in 0..b.stmts.len().saturating_sub(1) {
        if let Stmt::Expr(Expr::If(f), _) = &b.stmts[i] {
            if f.else_branch.is_none() {
                if let Some(Stmt::Expr(Expr::Return(_), _)) = f.then_branch.stmts.last() {
                    let mut f = f.clone();
                    deret(&mut f.then_branch);
                    let mut rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                    deret(&mut rest);
                    f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
                    b.stmts.truncate(i);
                    b.stmts.push(Stmt::Expr(Expr::If(f), None));
                    return;
                }
            }
        }
    }
}

fn subst(ts: TokenStream, me: &proc_macro2::Ident, ty: &Option<TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), subst(g.stream(), me, ty)); n.set_span(g.span()); out.extend([TokenTree::Group(n)]) }
            TokenTree::Ident(i) if i == "self" => out.extend([TokenTree::Ident(me.clone())]),
            TokenTree::Ident(i) if i == "Self" => match ty { Some(t) => out.extend(t.clone()), None => out.extend([TokenTree::Ident(i)]) },
            t => out.extend([t]),
        }
    }
    out
}
fn rename(ts: TokenStream, from: &str, to: &proc_macro2::Ident) -> TokenStream {
    let mut out = TokenStream::new();
    let mut dot = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), rename(g.stream(), from, to)); n.set_span(g.span()); out.extend([TokenTree::Group(n)]); dot = false }
            TokenTree::Ident(i) if i == from && !dot => { out.extend([TokenTree::Ident(to.clone())]); dot = false }
            t => { dot = matches!(&t, TokenTree::Punct(p) if p.as_char() == '.'); out.extend([t]) }
        }
    }
    out
}
/// how a name occurs: (other than as a field), (other than before a dot)
fn occurs(ts: TokenStream, n: &str) -> (bool, bool) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let dot = |i: usize| i < v.len() && matches!(&v[i], TokenTree::Punct(p) if p.as_char() == '.');
    let mut r = (false, false);
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Group(g) => { let x = occurs(g.stream(), n); r = (r.0 || x.0, r.1 || x.1) }
            TokenTree::Ident(x) if x == n && !(i > 0 && dot(i - 1) && !(i > 1 && dot(i - 2))) => { r.0 = true; if !dot(i + 1) || dot(i + 2) { r.1 = true } }
            _ => {}
        }
    }
    r
}
/// the type, without lifetimes; none if it is not nameable outside
fn plain(t: &Type, gen: &HashSet<String>) -> Option<TokenStream> {
    struct L(bool, HashSet<String>);
    impl VisitMut for L {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { r.lifetime = None; visit_mut::visit_type_reference_mut(self, r) }
        fn visit_lifetime_mut(&mut self, l: &mut Lifetime) { l.ident = format_ident!("_") }
        fn visit_type_impl_trait_mut(&mut self, _: &mut TypeImplTrait) { self.0 = false }
        fn visit_path_mut(&mut self, p: &mut Path) { if p.segments.iter().any(|x| self.1.contains(&x.ident.to_string())) { self.0 = false } visit_mut::visit_path_mut(self, p) }
    }
    let mut t = t.clone();
    let mut l = L(true, gen.clone());
    l.visit_type_mut(&mut t);
    if l.0 { Some(quote!(#t)) } else { None }
}

pub struct Inl { helpers: HashMap<String, Vec<Helper>>, consts: HashMap<String, (Type, Expr)>, ty: Option<Type>, depth: usize, n: usize, closure: bool }

impl Inl {
    /// known: the names of functions under contract, or with a stand-in
    pub fn new(files: &[&File], known: &[String], consts: bool) -> Inl {
        let mut f = Found::default();
        for x in files { f.visit_file(x) }
        let mut h: HashMap<String, Vec<Helper>> = HashMap::new();
        for (ty, tr, sig, block) in f.fns {
            let n = sig.ident.to_string();
            if known.contains(&n) || sig.unsafety.is_some() || sig.asyncness.is_some() { continue }
            let _ = tr;
            let mut b = block;
            deret(&mut b);
            let exit = outs(&b);
            h.entry(n).or_default().push(Helper { sig, block: b, ty, exit, clo: false });
        }
        let mut c = HashMap::new();
        if consts { for (n, t, e) in f.consts { c.insert(n, (t, e)); } }
        Inl { helpers: h, consts: c, ty: None, depth: 0, n: 0, closure: false }
    }
    pub fn run(&mut self, f: &mut File) { if !self.helpers.is_empty() || !self.consts.is_empty() { self.visit_file_mut(f) } }

    fn one(&self, n: &str, ty: Option<&str>) -> Option<&Helper> {
        let v = self.helpers.get(n)?;
        match ty {
            None => { let f: Vec<_> = v.iter().filter(|h| h.ty.is_none()).collect(); if f.len() == 1 { Some(f[0]) } else { None } }
            Some(t) => {
                let f: Vec<_> = v.iter().filter(|h| h.ty.as_ref().map(|x| head(x)) == Some(t.to_string())).collect();
                if f.len() == 1 { return Some(f[0]) }
                if f.is_empty() && v.len() == 1 && v[0].ty.is_none() { return Some(&v[0]) }
                None
            }
        }
    }
    /// the helper a call means, and its arguments (the receiver first)
    fn target(&self, e: &Expr) -> Option<(Helper, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let h = self.of_path(&c.func)?;
                if h.sig.inputs.len() != c.args.len() { return None }
                Some((h, c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Expr::Path(p) = &*m.receiver { if p.path.is_ident("self") {
                    let h = self.one(&n, self.ty.as_ref().map(head).as_deref())?;
                    if h.sig.receiver().is_none() || h.sig.inputs.len() != m.args.len() + 1 { return None }
                    return Some((h.clone(), std::iter::once((*m.receiver).clone()).chain(m.args.iter().cloned()).collect()));
                } }
                let v = self.helpers.get(&n)?;
                if v.len() != 1 || v[0].ty.is_none() || v[0].sig.receiver().is_none() || v[0].sig.inputs.len() != m.args.len() + 1 { return None }
                Some((v[0].clone(), std::iter::once((*m.receiver).clone()).chain(m.args.iter().cloned()).collect()))
            }
            _ => None,
        }
    }
    fn of_path(&self, e: &Expr) -> Option<Helper> {
        if let Expr::Path(p) = e {
            let g = &p.path.segments;
            let n = g.last()?.ident.to_string();
            if g.len() == 1 { return self.one(&n, None).cloned() }
            let q = g[g.len() - 2].ident.to_string();
            if q == "Self" { return self.one(&n, self.ty.as_ref().map(head).as_deref()).cloned() }
            if ["self", "super", "crate"].contains(&q.as_str()) || q.chars().next().map(|c| c.is_lowercase()) == Some(true) { return self.one(&n, None).cloned() }
            return self.one(&n, Some(&q)).cloned();
        }
        None
    }
    fn body(&mut self, h: &Helper, args: Vec<Expr>) -> Expr {
        self.n += 1;
        let me = format_ident!("vf_self{}", self.n);
        let gen: HashSet<String> = h.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let ty = h.ty.clone().or_else(|| self.ty.clone());
        let tyt = ty.as_ref().map(|t| quote!(#t));
        let (mut first, mut then) = (vec![], vec![]);
        let mut names = vec![];
        let mut whole = { let b = &h.block.stmts; quote!(#(#b)*) };
        // the names a closure argument uses stay its own
        let clos: Vec<TokenStream> = args.iter().filter(|a| matches!(a, Expr::Closure(_))).map(|a| quote!(#a)).collect();
        let used = |n: &str| clos.iter().any(|c| occurs(c.clone(), n).0 || c.to_string().contains(&format!("{{{}", n)));
        if !clos.is_empty() { for n in declared(&h.block) { if used(&n) { whole = rename(whole, &n, &format_ident!("vf_{}_{}", self.n, n)); } } }
        for (k, (p, a)) in h.sig.inputs.iter().zip(args).enumerate() {
            let t = format_ident!("vf_h{}_{}", self.n, k);
            match p {
                FnArg::Receiver(r) => {
                    let isself = if let Expr::Path(p) = &a { p.path.is_ident("self") } else { false };
                    let t2 = tyt.clone().unwrap_or(quote!(_));
                    if r.reference.is_some() && r.mutability.is_some() { if isself { first.push(quote!(let #me: &mut #t2 = self;)) } else { first.push(quote!(let #me: &mut #t2 = &mut #a;)) } }
                    else if r.reference.is_some() { if isself { first.push(quote!(let #me: &#t2 = self;)) } else { first.push(quote!(let #me: &#t2 = &#a;)) } }
                    else { let m = r.mutability; first.push(quote!(let #m #me = #a;)) }
                }
                FnArg::Typed(pt) => {
                    let mut pat = pt.pat.clone();
                    if let Expr::Closure(_) = &a { first.push(quote!(let #pat = #a;)); continue }
                    // a writer handed on keeps its name
                    if let (Pat::Ident(pi), Expr::Reference(r)) = (&*pat, &a) { if let (Some(_), Expr::Path(q)) = (r.mutability, &*r.expr) { if let Some(v) = q.path.get_ident() {
                        let p = pi.ident.to_string();
                        let open = match &*pt.ty { Type::Infer(_) => true, t => plain(t, &gen).is_none() };
                        if open && (*v == p || !occurs(whole.clone(), &v.to_string()).0 && !used(&p)) { names.push((p, v.clone())); continue }
                    } } }
                    // a variable lent to the helper keeps its name
                    if let Pat::Ident(pi) = &*pat { if pi.mutability.is_none() && pi.by_ref.is_none() && pi.subpat.is_none() {
                        let (v, lent) = match &a { Expr::Path(p) => (p.path.get_ident().cloned(), false), Expr::Reference(r) => (if let Expr::Path(p) = &*r.expr { p.path.get_ident().cloned() } else { None }, true), _ => (None, false) };
                        if let Some(v) = v { if v != "self" || !lent {
                            let (p, vs) = (pi.ident.to_string(), v.to_string());
                            let other = h.sig.inputs.iter().any(|q| matches!(q, FnArg::Typed(q) if s(&q.pat) == vs && vs != p));
                            if !other && (p == vs || !occurs(whole.clone(), &vs).0) && (!lent && matches!(&*pt.ty, Type::Reference(_)) && ![" }", " ,"].iter().any(|e| s(&whole).contains(&format!("{{ {}{}", p, e))) || lent && !occurs(whole.clone(), &p).1) { names.push((p, v)); continue }
                        } }
                    } }
                    if let Pat::Ident(pi) = &mut *pat { if used(&pi.ident.to_string()) { let n = format_ident!("vf_{}_{}", self.n, pi.ident); whole = rename(whole, &pi.ident.to_string(), &n); pi.ident = n; } }
                    match plain(&pt.ty, &gen) { Some(x) => { let x = subst(x, &me, &tyt); first.push(quote!(let #t: #x = #a;)) } None => first.push(quote!(let #t = #a;)) }
                    then.push(quote!(let #pat = #t;));
                }
            }
        }
        let mut b = whole;
        if !h.clo { b = subst(b, &me, &tyt) }
        for (p, v) in names { b = rename(b, &p, &v) }
        let toks = match &h.sig.output {
            ReturnType::Type(_, t) => match plain(t, &gen) { Some(r) => { let r = subst(r, &me, &tyt); let v = format_ident!("vf_hr{}", self.n); quote!({ #(#first)* #(#then)* let #v: #r = { #b }; #v }) } None => quote!({ #(#first)* #(#then)* #b }) },
            _ => quote!({ #(#first)* #(#then)* #b }),
        };
        match parse2::<Expr>(toks.clone()) { Ok(e) => e, Err(_) => Expr::Verbatim(toks) }
    }
    /// local closures: calls become their bodies
    fn closures(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let found = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(n)) if n.diverge.is_none() && p.mutability.is_none() => if let Expr::Closure(c) = &*n.expr { Some((p.ident.to_string(), c.clone())) } else { None },
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, c)) = found {
                let mut rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                let mut blk = match &*c.body { Expr::Block(x) if x.label.is_none() => x.block.clone(), x => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(x.clone(), None)] } };
                deret(&mut blk);
                let exit = outs(&blk);
                let mut sig: Signature = parse_quote!(fn vf_closure());
                for p in &c.inputs { sig.inputs.push(match p { Pat::Type(t) => FnArg::Typed(t.clone()), p => FnArg::Typed(parse_quote!(#p: _)) }); }
                if let ReturnType::Type(..) = &c.output { sig.output = c.output.clone() }
                let h = Helper { sig, block: blk, ty: None, exit, clo: true };
                let mut k = Beta { inl: self, name: name.clone(), h, c };
                k.visit_block_mut(&mut rest);
                if !occurs(quote!(#rest), &name).0 { b.stmts.truncate(i); b.stmts.extend(rest.stmts); continue }
            }
            i += 1;
        }
    }
    fn put(&mut self, e: &mut Expr, allow: Exit) -> bool {
        if self.depth > 6 { return false }
        let (h, args) = match self.target(e) { Some(x) => x, None => return false };
        let ok = h.exit == Exit::End || allow == Exit::Any || allow == Exit::Error && h.exit == Exit::Error;
        if !ok || self.closure && allow == Exit::Any { return false }
        let mut args = args;
        for a in args.iter_mut() { self.visit_expr_mut(a) }
        let mut b = self.body(&h, args);
        let old = (self.ty.clone(), self.closure);
        if h.ty.is_some() { self.ty = h.ty.clone() }
        self.depth += 1;
        // the inlined body ends where the caller's expression ends
        if allow == Exit::Any { self.tail(&mut b) } else { self.visit_expr_mut(&mut b) }
        self.depth -= 1;
        self.ty = old.0; self.closure = old.1;
        *e = b;
        true
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.tail_block(&mut b.block),
            Expr::If(i) => { self.visit_expr_mut(&mut i.cond); self.tail_block(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { self.tail(x) } }
            Expr::Match(m) => { self.visit_expr_mut(&mut m.expr); for a in &mut m.arms { if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g) } self.tail(&mut a.body) } }
            Expr::Paren(p) => self.tail(&mut p.expr),
            _ => if !self.put(e, Exit::Any) { self.visit_expr_mut(e) },
        }
    }
    fn tail_block(&mut self, b: &mut Block) {
        self.closures(b);
        let n = b.stmts.len();
        for (i, st) in b.stmts.iter_mut().enumerate() {
            match st {
                Stmt::Expr(e, None) if i + 1 == n => self.tail(e),
                st => self.visit_stmt_mut(st),
            }
        }
    }
}
/// names a body declares with let
fn declared(b: &Block) -> Vec<String> {
    struct D(Vec<String>);
    impl<'a> Visit<'a> for D { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
    let mut d = D(vec![]);
    d.visit_block(b);
    d.0
}
/// a closure bound to a name, in the rest of its block
struct Beta<'a> { inl: &'a mut Inl, name: String, h: Helper, c: ExprClosure }
impl<'a> Beta<'a> {
    fn is(&self, e: &Expr) -> bool { matches!(e, Expr::Path(p) if p.path.is_ident(&self.name)) }
    fn call(&mut self, e: &mut Expr, exit: Exit) -> bool {
        let c = match e { Expr::Call(c) if self.is(&c.func) && c.args.len() == self.h.sig.inputs.len() => c, _ => return false };
        if !(self.h.exit == Exit::End || self.h.exit == exit) { return false }
        for a in c.args.iter_mut() { self.visit_expr_mut(a) }
        let args = c.args.iter().cloned().collect();
        let b = self.inl.body(&self.h, args);
        *e = parse_quote!((#b));
        true
    }
}
impl<'a> VisitMut for Beta<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e { if self.call(&mut t.expr, Exit::Error) { return } }
        if self.call(e, Exit::End) { return }
        if let Expr::Reference(r) = e { if self.is(&r.expr) { *e = Expr::Closure(self.c.clone()); return } }
        if self.is(e) { *e = Expr::Closure(self.c.clone()); return }
        visit_mut::visit_expr_mut(self, e)
    }
}
fn head(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default(), Type::Reference(r) => head(&r.elem), t => s(t) } }

impl VisitMut for Inl {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) { if !cfg_test(&m.attrs) { visit_mut::visit_item_mod_mut(self, m) } }
    fn visit_item_impl_mut(&mut self, m: &mut ItemImpl) {
        if cfg_test(&m.attrs) || m.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) { return }
        let old = self.ty.replace((*m.self_ty).clone());
        visit_mut::visit_item_impl_mut(self, m);
        self.ty = old;
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) { self.tail_block(&mut f.block) }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) { if let Some(b) = &mut f.default { self.tail_block(b) } }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) { if !cfg_test(&f.attrs) { let (t, c) = (self.ty.take(), std::mem::replace(&mut self.closure, false)); self.tail_block(&mut f.block); self.ty = t; self.closure = c } }
    fn visit_block_mut(&mut self, b: &mut Block) { self.closures(b); visit_mut::visit_block_mut(self, b) }
    // the arguments of a formatting macro are expressions too
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        use syn::parse::Parser;
        if !["write", "writeln", "print", "println", "eprint", "eprintln", "format"].iter().any(|n| m.path.is_ident(n)) { return }
        if let Ok(mut a) = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()) {
            for x in a.iter_mut() { match x { Expr::Assign(x) => self.visit_expr_mut(&mut x.right), x => self.visit_expr_mut(x) } }
            m.tokens = a.to_token_stream();
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { let o = std::mem::replace(&mut self.closure, true); visit_mut::visit_expr_closure_mut(self, c); self.closure = o }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(t) => { if self.put(&mut t.expr, Exit::Error) { let x = (*t.expr).clone(); *t.expr = parse_quote!((#x)); return } }
            Expr::Return(r) if !self.closure => { if let Some(x) = &mut r.expr { self.tail(x); return } }
            _ => {}
        }
        // a helper as a function value
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                if let Some(h) = self.of_path(a) { if h.sig.inputs.len() == 1 { let f = a.clone(); *a = parse_quote!(|vf_a| #f(vf_a)) } }
            }
        }
        if self.put(e, Exit::End) { return }
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.attrs.is_empty() {
                let n = p.path.segments.last().unwrap().ident.to_string();
                let one = p.path.segments.len() == 1 || p.path.segments.len() == 2 && ["self", "super", "crate"].contains(&p.path.segments[0].ident.to_string().as_str());
                if one { if let Some((t, x)) = self.consts.get(&n) { if self.depth < 6 { let (t, x) = (t.clone(), x.clone()); self.depth += 1; let mut x = x; self.visit_expr_mut(&mut x); self.depth -= 1;
                    *e = if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = &x { if i.suffix().is_empty() && matches!(s(&t).as_str(), "u32" | "usize" | "u64" | "i32" | "i64" | "u8") { let l = LitInt::new(&format!("{}{}", i.base10_digits(), s(&t)), i.span()); parse_quote!(#l) } else { x } }
                        else if s(&t).starts_with('&') { x } else { parse_quote!({ let vf_c: #t = #x; vf_c }) };
                    return } } }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
