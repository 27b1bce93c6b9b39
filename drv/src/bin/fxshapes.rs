//! What pest really builds with /repo's grammar: for texts separated by NUL on stdin, the distinct `rule kid kid ...` of every pair,
//! and `! what` if a tree is not what vx/ast.vrs assumes of one (text of a pair, span of its kids).
use pest::{iterators::Pair, Parser};
use std::{collections::BTreeSet, io::Read};
#[derive(pest_derive::Parser)]
#[grammar = "/repo/src/xdr.pest"]
struct X;
fn walk(p: Pair<Rule>, src: &str, out: &mut BTreeSet<String>) {
    let sp = p.as_span();
    let ks: Vec<_> = p.clone().into_inner().collect();
    let all = p.clone().into_inner().as_str();
    if p.as_str() != &src[sp.start()..sp.end()] || ks.is_empty() && !all.is_empty() || ks.len() == 1 && all != ks[0].as_str() { out.insert(format!("! text of {:?}", p.as_rule())); }
    let mut l = format!("{:?}", p.as_rule());
    for k in &ks { l += &format!(" {:?}", k.as_rule()); }
    out.insert(l);
    for k in ks { walk(k, src, out); }
}
fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let (mut out, mut ok, mut n) = (BTreeSet::new(), 0, 0);
    for t in s.split('\0') {
        n += 1;
        if let Ok(ps) = X::parse(Rule::item, t) { ok += 1; for p in ps { walk(p, t, &mut out); } }
    }
    println!("{n} {ok}");
    for l in out { println!("{l}"); }
}
