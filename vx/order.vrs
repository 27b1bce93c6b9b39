// ---- C11: what the declarations say does not depend on their order ----
pub open spec fn subdecls(a: Seq<Node>, b: Seq<Node>) -> bool { forall|i: int| 0 <= i < a.len() ==> exists|j: int| 0 <= j < b.len() && #[trigger] b[j] == #[trigger] a[i] }
/// each type name is declared once
pub open spec fn names_once(ns: Seq<Node>) -> bool { forall|i: int, j: int| 0 <= i < ns.len() && 0 <= j < ns.len() && tname(#[trigger] ns[i]) is Some && tname(#[trigger] ns[j]) == tname(ns[i]) ==> ns[i] == ns[j] }
pub proof fn lem_tmap_in(ns: Seq<Node>, k: int) requires 0 <= k <= ns.len(), names_once(ns)
    ensures forall|i: int| 0 <= i < k && tname(#[trigger] ns[i]) is Some ==> tmap(ns, k).dom().contains(tname(ns[i])->Some_0) && tmap(ns, k)[tname(ns[i])->Some_0] == ttype(ns[i]),
        forall|n: Seq<char>| #[trigger] tmap(ns, k).dom().contains(n) ==> exists|i: int| 0 <= i < k && tname(#[trigger] ns[i]) == Some(n) && tmap(ns, k)[n] == ttype(ns[i])
    decreases k
{
    if k > 0 {
        lem_tmap_in(ns, k - 1);
        let m = tmap(ns, k - 1); let d = ns[k - 1];
        assert forall|i: int| 0 <= i < k && tname(#[trigger] ns[i]) is Some implies tmap(ns, k).dom().contains(tname(ns[i])->Some_0) && tmap(ns, k)[tname(ns[i])->Some_0] == ttype(ns[i]) by {
            if i < k - 1 && tname(d) == tname(ns[i]) { assert(ns[i] == d); } }
        assert forall|n: Seq<char>| #[trigger] tmap(ns, k).dom().contains(n) implies exists|i: int| 0 <= i < k && tname(#[trigger] ns[i]) == Some(n) && tmap(ns, k)[n] == ttype(ns[i]) by {
            if tname(d) == Some(n) { assert(tname(ns[k - 1]) == Some(n)); } else {
                assert(m.dom().contains(n)); let i = choose|i: int| 0 <= i < k - 1 && tname(#[trigger] ns[i]) == Some(n) && m[n] == ttype(ns[i]); assert(tname(ns[i]) == Some(n)); } }
    }
}
pub proof fn lem_types_order(a: Seq<Node>, b: Seq<Node>) requires subdecls(a, b), subdecls(b, a), names_once(a), names_once(b) ensures tmap(a, a.len() as int) == tmap(b, b.len() as int)
{
    let (x, y) = (tmap(a, a.len() as int), tmap(b, b.len() as int));
    lem_tmap_in(a, a.len() as int); lem_tmap_in(b, b.len() as int);
    assert forall|n: Seq<char>| #[trigger] x.dom().contains(n) implies y.dom().contains(n) && x[n] == y[n] by {
        let i = choose|i: int| 0 <= i < a.len() && tname(#[trigger] a[i]) == Some(n) && x[n] == ttype(a[i]); let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == a[i]; assert(tname(b[j]) == Some(n)); }
    assert forall|n: Seq<char>| #[trigger] y.dom().contains(n) implies x.dom().contains(n) by {
        let i = choose|i: int| 0 <= i < b.len() && tname(#[trigger] b[i]) == Some(n) && y[n] == ttype(b[i]); let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == b[i]; assert(tname(a[j]) == Some(n)); }
    assert(x =~= y);
}
pub open spec fn has_entry(es: Seq<(Seq<char>, CV)>, e: (Seq<char>, CV)) -> bool { exists|i: int| 0 <= i < es.len() && #[trigger] es[i] == e }
pub proof fn lem_entries_in(ns: Seq<Node>, k: int) requires 0 <= k <= ns.len()
    ensures forall|e: (Seq<char>, CV)| #[trigger] has_entry(entries(ns, k), e) ==> exists|i: int| 0 <= i < k && has_entry(entries1(#[trigger] ns[i]), e),
        forall|e: (Seq<char>, CV), i: int| 0 <= i < k && #[trigger] has_entry(entries1(#[trigger] ns[i]), e) ==> has_entry(entries(ns, k), e)
    decreases k
{
    if k > 0 {
        lem_entries_in(ns, k - 1);
        let p = entries(ns, k - 1); let q = entries1(ns[k - 1]); let r = entries(ns, k);
        assert(r == p + q);
        assert forall|e: (Seq<char>, CV)| #[trigger] has_entry(r, e) implies exists|i: int| 0 <= i < k && has_entry(entries1(#[trigger] ns[i]), e) by {
            let j = choose|j: int| 0 <= j < r.len() && #[trigger] r[j] == e;
            if j < p.len() { assert(p[j] == e); assert(has_entry(p, e)); let i = choose|i: int| 0 <= i < k - 1 && has_entry(entries1(#[trigger] ns[i]), e); assert(has_entry(entries1(ns[i]), e)); } else { assert(q[j - p.len()] == e); assert(has_entry(entries1(ns[k - 1]), e)); } }
        assert forall|e: (Seq<char>, CV), i: int| 0 <= i < k && #[trigger] has_entry(entries1(#[trigger] ns[i]), e) implies has_entry(r, e) by {
            if i < k - 1 { assert(has_entry(p, e)); let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == e; assert(r[j] == e); }
            else { let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] == e; assert(r[p.len() + j] == e); } }
    }
}
pub proof fn lem_consts_sub(a: Seq<Node>, b: Seq<Node>, x: Map<Seq<char>, ConstantType>, y: Map<Seq<char>, ConstantType>) requires subdecls(a, b), cexact(x, entries(a, a.len() as int)), cexact(y, entries(b, b.len() as int))
    ensures forall|n: Seq<char>| #[trigger] x.dom().contains(n) ==> y.dom().contains(n) && cv(x[n]) == cv(y[n])
{
    let es = entries(a, a.len() as int); let fs = entries(b, b.len() as int);
    lem_entries_in(a, a.len() as int); lem_entries_in(b, b.len() as int);
    assert forall|n: Seq<char>| #[trigger] x.dom().contains(n) implies y.dom().contains(n) && cv(x[n]) == cv(y[n]) by {
        let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == n;
        let e = es[i]; assert(has_entry(es, e));
        let d = choose|d: int| 0 <= d < a.len() && has_entry(entries1(#[trigger] a[d]), e);
        let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == a[d];
        assert(has_entry(entries1(b[j]), e)); assert(has_entry(fs, e));
        let l = choose|l: int| 0 <= l < fs.len() && #[trigger] fs[l] == e; assert(fs[l].0 == n);
    }
}
pub proof fn lem_within_sub(a: Seq<Node>, b: Seq<Node>, k: nat) requires subdecls(a, b) ensures forall|n: Seq<char>| #[trigger] within(a, k)(n) ==> within(b, k)(n) decreases k {
    if k > 0 {
        let h = (k - 1) as nat;
        lem_within_sub(a, b, h);
        assert forall|n: Seq<char>| #[trigger] within(a, k)(n) implies within(b, k)(n) by {
            let i = choose|i: int| 0 <= i < a.len() && gname(#[trigger] a[i]) == Some(n) && refers(a[i], within(a, h));
            lem_within_mono(a[i], within(a, h), within(b, h));
            let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == a[i];
            assert(gname(b[j]) == Some(n) && refers(b[j], within(b, h)));
        }
    }
}
pub proof fn lem_reaches_sub(a: Seq<Node>, b: Seq<Node>) requires subdecls(a, b) ensures forall|n: Seq<char>| #[trigger] reaches(a, n) ==> reaches(b, n) {
    assert forall|n: Seq<char>| #[trigger] reaches(a, n) implies reaches(b, n) by { let k = choose|k: nat| (#[trigger] within(a, k))(n); lem_within_sub(a, b, k); assert(within(b, k)(n)); }
}
/// the same declarations in any two orders: the same types, constants and generic names
pub proof fn order_independent(a: Seq<Node>, b: Seq<Node>, x: Ast, y: Ast)
    requires subdecls(a, b), subdecls(b, a), names_once(a), names_once(b), ast_of(a, x), ast_of(b, y)
    ensures x.type_index.0@ == y.type_index.0@, x.generic_index.0@ == y.generic_index.0@,
        x.constant_index.0@.dom() == y.constant_index.0@.dom(), forall|n: Seq<char>| #[trigger] x.constant_index.0@.dom().contains(n) ==> x.constant_index.0@[n] == y.constant_index.0@[n]
{
    broadcast use string_ext;
    lem_types_order(a, b);
    lem_consts_sub(a, b, x.constant_index.0@, y.constant_index.0@); lem_consts_sub(b, a, y.constant_index.0@, x.constant_index.0@);
    lem_reaches_sub(a, b); lem_reaches_sub(b, a);
    assert(x.generic_index.0@ =~= y.generic_index.0@);
    assert(x.constant_index.0@.dom() =~= y.constant_index.0@.dom());
}
