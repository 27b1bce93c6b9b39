// ---- lemmas about the specification functions ----
pub open spec fn is_stmt(labels: Seq<Seq<char>>, ns: Seq<Node>, r: CaseStmt) -> bool {
    let l = if ns[0] is Type { labels.push(bstr(ns[0]->Type_0)) } else { labels };
    let body = if ns[0] is Type { if ns.len() == 1 { None } else { Some(ns[1]) } } else { Some(ns[0]) };
    match body {
        None => r is Fallthrough && strs(r->Fallthrough_0@) == l,
        Some(Node::UnionVoid) => r is Void && strs(r->Void_0@) == l,
        Some(Node::UnionDataField(f)) => r is Defined && plain_field(f@) && arm(r->Defined_0) == arm_of(l, f@),
        _ => false,
    }
}
pub proof fn lem_strs()
    ensures forall|v: Seq<String>, x: String| #[trigger] strs(v.push(x)) == strs(v).push(x@), forall|a: Seq<String>, b: Seq<String>| #[trigger] strs(a + b) == strs(a) + strs(b), strs(Seq::empty()) == Seq::<Seq<char>>::empty()
{
    assert forall|v: Seq<String>, x: String| #[trigger] strs(v.push(x)) == strs(v).push(x@) by { assert(strs(v.push(x)) =~= strs(v).push(x@)); }
    assert forall|a: Seq<String>, b: Seq<String>| #[trigger] strs(a + b) == strs(a) + strs(b) by { assert(strs(a + b) =~= strs(a) + strs(b)); }
    assert(strs(Seq::empty()) =~= Seq::<Seq<char>>::empty());
}
pub proof fn lem_arms() ensures forall|v: Seq<UnionCase>, x: UnionCase| #[trigger] arms(v.push(x)) == arms(v).push(arm(x)), arms(Seq::empty()) == Seq::<Arm>::empty()
{
    assert forall|v: Seq<UnionCase>, x: UnionCase| #[trigger] arms(v.push(x)) == arms(v).push(arm(x)) by { assert(arms(v.push(x)) =~= arms(v).push(arm(x))); }
    assert(arms(Seq::empty()) =~= Seq::<Arm>::empty());
}
/// where a word starts with `unsigned`, its end is the end of the rest
pub proof fn lem_uns(w: Seq<char>) ensures pre(w, "unsigned"@) ==> (suf(w, "int"@) == suf(w.skip(8), "int"@) && suf(w, "hyper"@) == suf(w.skip(8), "hyper"@)) {
    reveal_strlit("unsigned"); reveal_strlit("int"); reveal_strlit("hyper");
    if pre(w, "unsigned"@) {
        let r = w.skip(8);
        assert forall|j: int| 0 <= j < 8 implies w[j] == "unsigned"@[j] by { assert(w.take(8)[j] == w[j]); }
        if suf(w, "int"@) { assert(w.skip(w.len() - 3)[0] == w[w.len() - 3]); assert("int"@[0] == 'i'); assert(r.len() >= 3); assert(r.skip(r.len() - 3) =~= w.skip(w.len() - 3)); }
        if suf(r, "int"@) { assert(r.skip(r.len() - 3) =~= w.skip(w.len() - 3)); }
        if suf(w, "hyper"@) { assert(w.skip(w.len() - 5)[0] == w[w.len() - 5]); assert("hyper"@[0] == 'h'); assert(r.len() >= 5); assert(r.skip(r.len() - 5) =~= w.skip(w.len() - 5)); }
        if suf(r, "hyper"@) { assert(r.skip(r.len() - 5) =~= w.skip(w.len() - 5)); }
    }
}
pub proof fn lem_lits() ensures "unsigned"@ != "unsigned int"@, "unsigned"@ != "uint32_t"@, "unsigned"@ != "u32"@, "unsigned"@ != "int"@, "unsigned"@ != "int32_t"@, "unsigned"@ != "i32"@, "unsigned"@ != "unsigned hyper"@, "unsigned"@ != "uint64_t"@, "unsigned"@ != "u64"@, "unsigned"@ != "hyper"@, "unsigned"@ != "int64_t"@, "unsigned"@ != "i64"@, "unsigned"@ != "float"@, "unsigned"@ != "double"@, "unsigned"@ != "string"@, "unsigned"@ != "opaque"@, "unsigned"@ != "bool"@
{ reveal_strlit("unsigned int"); reveal_strlit("uint32_t"); reveal_strlit("u32"); reveal_strlit("int"); reveal_strlit("int32_t"); reveal_strlit("i32"); reveal_strlit("unsigned hyper"); reveal_strlit("uint64_t"); reveal_strlit("u64"); reveal_strlit("hyper"); reveal_strlit("int64_t"); reveal_strlit("i64"); reveal_strlit("float"); reveal_strlit("double"); reveal_strlit("string"); reveal_strlit("opaque"); reveal_strlit("bool"); reveal_strlit("unsigned"); assert("unsigned"@.len() != "unsigned int"@.len()); assert("unsigned"@[1] != "uint32_t"@[1]); assert("unsigned"@.len() != "u32"@.len()); assert("unsigned"@.len() != "int"@.len()); assert("unsigned"@.len() != "int32_t"@.len()); assert("unsigned"@.len() != "i32"@.len()); assert("unsigned"@.len() != "unsigned hyper"@.len()); assert("unsigned"@[1] != "uint64_t"@[1]); assert("unsigned"@.len() != "u64"@.len()); assert("unsigned"@.len() != "hyper"@.len()); assert("unsigned"@.len() != "int64_t"@.len()); assert("unsigned"@.len() != "i64"@.len()); assert("unsigned"@.len() != "float"@.len()); assert("unsigned"@.len() != "double"@.len()); assert("unsigned"@.len() != "string"@.len()); assert("unsigned"@.len() != "opaque"@.len()); assert("unsigned"@.len() != "bool"@.len()); }
pub open spec fn alias_end(m: Map<Seq<char>, AstType>, t: BasicType, k: nat) -> BasicType decreases k {
    if k > 0 && m.dom().contains(bstr(t)) && m[bstr(t)] is Typedef && m[bstr(t)]->Typedef_0.alias is None { alias_end(m, m[bstr(t)]->Typedef_0.target, (k - 1) as nat) } else { t }
}

// generic types
pub open spec fn sound(ns: Seq<Node>, g: Set<Seq<char>>) -> bool { forall|n: Seq<char>| #[trigger] g.contains(n) ==> reaches(ns, n) }
pub open spec fn nset(ns: Seq<Node>, k: int) -> Set<Seq<char>> decreases k { if k <= 0 { Set::empty() } else { match gname(ns[k - 1]) { Some(n) => nset(ns, k - 1).insert(n), None => nset(ns, k - 1) } } }
pub proof fn lem_nset(ns: Seq<Node>, k: int) requires 0 <= k <= ns.len()
    ensures nset(ns, k).len() <= k, forall|i: int| 0 <= i < k && gname(#[trigger] ns[i]) is Some ==> nset(ns, k).contains(gname(ns[i])->Some_0) decreases k { if k > 0 { lem_nset(ns, k - 1); } }
pub proof fn lem_within_mono(n: Node, g: Names, h: Names) requires refers(n, g), forall|x: Seq<char>| #[trigger] g(x) ==> h(x) ensures refers(n, h) {
    match n { Node::Struct(_) | Node::Union(_) => { let i = choose|i: int| 0 <= i < inner(n).len() && ty_opq(elem(#[trigger] inner(n)[i]), g); assert(ty_opq(elem(inner(n)[i]), h)); } _ => {} }
}
pub proof fn lem_gstep_sound(ns: Seq<Node>, i: int, g: Set<Seq<char>>) requires 0 <= i < ns.len(), sound(ns, g) ensures sound(ns, gstep(ns[i], g)) {
    let n = ns[i];
    if gname(n) is Some && refers(n, inset(g)) {
        let x = gname(n)->Some_0;
        let k: nat = match n {
            Node::Typedef(t) => if t.target is Opaque { 0 } else { assert(g.contains(bstr(t.target))); choose|k: nat| (#[trigger] within(ns, k))(bstr(t.target)) },
            _ => { let j = choose|j: int| 0 <= j < inner(n).len() && ty_opq(elem(#[trigger] inner(n)[j]), inset(g)); let t = elem(inner(n)[j]);
                if t is Opaque { 0 } else { assert(g.contains(t->Ident_0@)); choose|k: nat| (#[trigger] within(ns, k))(t->Ident_0@) } } };
        match n { Node::Typedef(t) => {}, _ => { let j = choose|j: int| 0 <= j < inner(n).len() && ty_opq(elem(#[trigger] inner(n)[j]), inset(g)); assert(ty_opq(elem(inner(n)[j]), within(ns, k))); } }
        assert(refers(n, within(ns, k)));
        assert(within(ns, (k + 1) as nat)(x)) by { assert(gname(ns[i]) == Some(x) && refers(ns[i], within(ns, k))); assert(((k + 1) as nat - 1) as nat == k); }
        assert(reaches(ns, x));
    }
}
pub proof fn lem_gpass(ns: Seq<Node>, k: int, g: Set<Seq<char>>) requires 0 <= k <= ns.len()
    ensures g.subset_of(gpass(ns, k, g)), sound(ns, g) ==> sound(ns, gpass(ns, k, g)), g.subset_of(nset(ns, ns.len() as int)) ==> gpass(ns, k, g).subset_of(nset(ns, ns.len() as int)),
        gpass(ns, k, g) == g ==> forall|i: int| 0 <= i < k && gname(#[trigger] ns[i]) is Some && refers(ns[i], inset(g)) ==> g.contains(gname(ns[i])->Some_0)
    decreases k
{
    if k > 0 {
        lem_gpass(ns, k - 1, g);
        let h = gpass(ns, k - 1, g);
        if sound(ns, g) { lem_gstep_sound(ns, k - 1, h); }
        lem_nset(ns, ns.len() as int);
        assert(h.subset_of(gstep(ns[k - 1], h)));
        if gpass(ns, k, g) == g { assert(h =~= g); }
    }
}
pub open spec fn closed(ns: Seq<Node>, g: Set<Seq<char>>) -> bool { forall|i: int| 0 <= i < ns.len() && gname(#[trigger] ns[i]) is Some && refers(ns[i], inset(g)) ==> g.contains(gname(ns[i])->Some_0) }
pub proof fn lem_closed(ns: Seq<Node>, g: Set<Seq<char>>, k: nat) requires closed(ns, g) ensures forall|x: Seq<char>| #[trigger] within(ns, k)(x) ==> g.contains(x) decreases k {
    if k > 0 {
        let h = (k - 1) as nat;
        lem_closed(ns, g, h);
        assert forall|x: Seq<char>| #[trigger] within(ns, k)(x) implies g.contains(x) by {
            let i = choose|i: int| 0 <= i < ns.len() && gname(#[trigger] ns[i]) == Some(x) && refers(ns[i], within(ns, h));
            lem_within_mono(ns[i], within(ns, h), inset(g));
        }
    }
}
/// a fixed point that reached only what it must is exactly what is reached
pub proof fn lem_fixpoint(ns: Seq<Node>, g: Set<Seq<char>>) requires gpass(ns, ns.len() as int, g) == g, sound(ns, g) ensures forall|n: Seq<char>| #[trigger] g.contains(n) == reaches(ns, n) {
    lem_gpass(ns, ns.len() as int, g);
    assert forall|n: Seq<char>| #[trigger] g.contains(n) == reaches(ns, n) by { if reaches(ns, n) { let k = choose|k: nat| (#[trigger] within(ns, k))(n); lem_closed(ns, g, k); } }
}
pub proof fn lem_card(a: Set<Seq<char>>, b: Set<Seq<char>>) requires a.subset_of(b) ensures a.len() <= b.len(), a.len() == b.len() ==> a == b {
    vstd::set_lib::lemma_len_subset(a, b);
    if a.len() == b.len() { vstd::set_lib::lemma_subset_equality(a, b); }
}
/// what one more pass may do, in the terms the loop speaks in
pub open spec fn pass_ok(ns: Seq<Node>, g: Set<Seq<char>>) -> bool {
    let h = gpass(ns, ns.len() as int, g);
    &&& g.len() <= h.len() <= ns.len() && sound(ns, h) && h.subset_of(nset(ns, ns.len() as int)) && (g.len() == h.len() ==> h == g)
    &&& h == g ==> forall|n: Seq<char>| #[trigger] g.contains(n) == reaches(ns, n)
}
pub proof fn lem_pass(ns: Seq<Node>, g: Set<Seq<char>>) requires sound(ns, g), g.subset_of(nset(ns, ns.len() as int)) ensures pass_ok(ns, g) {
    let h = gpass(ns, ns.len() as int, g);
    lem_gpass(ns, ns.len() as int, g); lem_nset(ns, ns.len() as int); lem_card(g, h); lem_card(h, nset(ns, ns.len() as int));
    if h == g { lem_fixpoint(ns, g); }
}
// constants
pub proof fn lem_entries(ns: Seq<Node>, a: int, b: int) requires 0 <= a <= b <= ns.len()
    ensures entries(ns, a).len() <= entries(ns, b).len(), entries(ns, b).take(entries(ns, a).len() as int) == entries(ns, a), distinct(entries(ns, b)) ==> distinct(entries(ns, a)) decreases b - a
{
    if a < b { lem_entries(ns, a, b - 1); }
    assert(entries(ns, b).take(entries(ns, a).len() as int) =~= entries(ns, a));
    assert forall|i: int| 0 <= i < entries(ns, a).len() implies #[trigger] entries(ns, a)[i] == entries(ns, b)[i] by { assert(entries(ns, b).take(entries(ns, a).len() as int)[i] == entries(ns, b)[i]); }
}
pub proof fn lem_members(e: Enum, a: int, b: int) requires 0 <= a <= b <= e.variants@.len()
    ensures members(e, a).len() == a, members(e, b).len() == b, members(e, b).take(a) == members(e, a) decreases b
{
    if b > a { lem_members(e, a, b - 1); assert(members(e, b).take(a) =~= members(e, a)); } else if b > 0 { lem_members(e, b - 1, b - 1); assert(members(e, b).take(a) =~= members(e, a)); } else { assert(members(e, b).take(a) =~= members(e, a)); }
}
pub proof fn lem_cexact(m: Map<Seq<char>, ConstantType>, es: Seq<(Seq<char>, CV)>) requires cexact(m, es), distinct(es)
    ensures forall|n: Seq<char>, c: ConstantType| !m.dom().contains(n) ==> cexact(#[trigger] m.insert(n, c), es.push((n, cv(c)))) && distinct(es.push((n, cv(c)))),
        forall|n: Seq<char>, x: CV| #![trigger es.push((n, x))] m.dom().contains(n) ==> !distinct(es.push((n, x)))
{
    assert forall|n: Seq<char>, c: ConstantType| !m.dom().contains(n) implies cexact(#[trigger] m.insert(n, c), es.push((n, cv(c)))) && distinct(es.push((n, cv(c)))) by {
        let e2 = es.push((n, cv(c))); let m2 = m.insert(n, c);
        assert forall|i: int| 0 <= i < e2.len() implies m2.dom().contains((#[trigger] e2[i]).0) && cv(m2[e2[i].0]) == e2[i].1 by { if i < es.len() { assert(e2[i] == es[i]); } }
        assert forall|x: Seq<char>| #[trigger] m2.dom().contains(x) implies exists|i: int| 0 <= i < e2.len() && (#[trigger] e2[i]).0 == x by {
            if x == n { assert(e2[es.len() as int].0 == n); } else { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == x; assert(e2[i] == es[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < e2.len() implies (#[trigger] e2[i]).0 != (#[trigger] e2[j]).0 by { assert(e2[i] == es[i]); if j < es.len() { assert(e2[j] == es[j]); } }
    }
    assert forall|n: Seq<char>, x: CV| #![trigger es.push((n, x))] m.dom().contains(n) implies !distinct(es.push((n, x))) by {
        let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == n; let e2 = es.push((n, x));
        assert(e2[i] == es[i]); assert(e2[es.len() as int].0 == n);
    }
}
pub proof fn lem_cut(es: Seq<(Seq<char>, CV)>, fs: Seq<(Seq<char>, CV)>) requires es.len() <= fs.len(), fs.take(es.len() as int) == es, distinct(fs) ensures distinct(es) {
    assert forall|i: int, j: int| 0 <= i < j < es.len() implies (#[trigger] es[i]).0 != (#[trigger] es[j]).0 by { assert(fs.take(es.len() as int)[i] == fs[i]); assert(fs.take(es.len() as int)[j] == fs[j]); }
}
/// one step of the scan over the declarations
pub proof fn lem_const(ns: Seq<Node>, p: int, m: Map<Seq<char>, ConstantType>) requires 0 <= p < ns.len(), cexact(m, entries(ns, p)), distinct(entries(ns, p))
    ensures distinct(entries(ns, ns.len() as int)) ==> distinct(entries(ns, p + 1)), entries(ns, p + 1) == entries(ns, p) + entries1(ns[p]),
        ns[p] is Constant ==> entries(ns, p + 1) == entries(ns, p).push((nid(ns[p]->Constant_0@[0]), CV::Text(nid(ns[p]->Constant_0@[1])))),
        ns[p] is Enum ==> entries(ns, p) == entries(ns, p) + members(ns[p]->Enum_0, 0),
        !(ns[p] is Constant || ns[p] is Enum) ==> entries(ns, p + 1) == entries(ns, p)
{
    lem_entries(ns, p + 1, ns.len() as int);
    assert(entries(ns, p + 1) == entries(ns, p) + entries1(ns[p]));
    if ns[p] is Constant { assert(entries(ns, p) + entries1(ns[p]) =~= entries(ns, p).push((nid(ns[p]->Constant_0@[0]), CV::Text(nid(ns[p]->Constant_0@[1]))))); }
    else if ns[p] is Enum { assert(entries(ns, p) =~= entries(ns, p) + members(ns[p]->Enum_0, 0)); } else { assert(entries(ns, p) + entries1(ns[p]) =~= entries(ns, p)); }
}
pub proof fn lem_member(ns: Seq<Node>, p: int, k: int) requires 0 <= p < ns.len(), ns[p] is Enum, 0 <= k < ns[p]->Enum_0.variants@.len()
    ensures ({ let e = ns[p]->Enum_0; let a = entries(ns, p) + members(e, k); let b = entries(ns, p) + members(e, k + 1);
        b == a.push((e.variants@[k].name@, CV::Member(e.name@, e.variants@[k].name@))) && (distinct(entries(ns, ns.len() as int)) ==> distinct(b)) })
{
    let e = ns[p]->Enum_0; let a = entries(ns, p) + members(e, k); let b = entries(ns, p) + members(e, k + 1);
    assert(b =~= a.push((e.variants@[k].name@, CV::Member(e.name@, e.variants@[k].name@))));
    lem_entries(ns, p + 1, ns.len() as int);
    if distinct(entries(ns, ns.len() as int)) {
        let f = entries(ns, p + 1); let n = e.variants@.len() as int;
        lem_members(e, k + 1, n);
        assert(f.take(b.len() as int) =~= b) by { assert forall|i: int| 0 <= i < b.len() implies f[i] == b[i] by { if i >= entries(ns, p).len() { assert(members(e, n).take(k + 1)[i - entries(ns, p).len()] == members(e, n)[i - entries(ns, p).len()]); } } }
        lem_cut(b, f);
    }
}
// parse tree -> syntax tree: what the constructors rely on
pub open spec fn struct_pre(ns: Seq<Node>) -> bool { ns.len() > 0 && named(ns[0]) && forall|i: int| 1 <= i < ns.len() && #[trigger] ns[i] is StructDataField ==> opts_full(ns[i]->StructDataField_0@) }
pub open spec fn enum_pre(ns: Seq<Node>) -> bool { ns.len() > 0 && named(ns[0]) && forall|i: int| 1 <= i < ns.len() && #[trigger] ns[i] is EnumVariant && ns[i]->EnumVariant_0@.len() == 2 ==> named(ns[i]->EnumVariant_0@[0]) && named(ns[i]->EnumVariant_0@[1]) }
pub open spec fn kid_ok(r: Rule, ns: Seq<Node>) -> bool {
    match r {
        Rule::struct_type => struct_pre(ns), Rule::enum_type => enum_pre(ns), Rule::union => union_shape(ns), Rule::typedef => typedef_shape(ns),
        Rule::item => root_ok(ns) && const_ok(ns),
        Rule::constant => ns.len() == 2 && named(ns[0]) && named(ns[1]),
        Rule::enum_variant => ns.len() == 2 && named(ns[0]) && named(ns[1]),
        Rule::struct_data_field | Rule::union_data_field => opts_full(ns),
        Rule::union_case => case_shape(ns), Rule::union_default => default_shape(ns),
        _ => true,
    }
}
pub proof fn lem_nd_named(p: Pair, n: Node) requires nd(p, n) ensures p.rule() == Rule::ident || p.rule() == Rule::basic_type || p.rule() == Rule::ident_const || p.rule() == Rule::ident_value ==> named(n) && n is Type {}
pub proof fn lem_kids(p: Pair, ns: Seq<Node>) requires nds(p.kids(), ns, p.ht()) ensures kid_ok(p.rule(), ns), forall|i: int| 0 <= i < ns.len() ==> nd(#[trigger] p.kids()[i], ns[i]), ns.len() == p.kids().len() decreases p.ht()
{
    broadcast use pest_shape; broadcast use pair_ht;
    let k = p.kids();
    assert(shape(p) && k.len() == ns.len());
    assert forall|i: int| 0 <= i < ns.len() implies nd(#[trigger] k[i], ns[i]) by { assert(k[i].ht() < p.ht()); }
    assert forall|i: int| 0 <= i < ns.len() implies (k[i].rule() == Rule::ident || k[i].rule() == Rule::basic_type || k[i].rule() == Rule::ident_const || k[i].rule() == Rule::ident_value ==> named(#[trigger] ns[i]) && ns[i] is Type) by { lem_nd_named(k[i], ns[i]); }
    if p.rule() == Rule::struct_type {
        assert forall|i: int| 1 <= i < ns.len() && #[trigger] ns[i] is StructDataField implies opts_full(ns[i]->StructDataField_0@) by { assert(nd(k[i], ns[i])); assert(k[i].rule() == Rule::struct_data_field); assert(k[i].ht() < p.ht()); lem_kids(k[i], ns[i]->StructDataField_0@); }
    } else if p.rule() == Rule::enum_type {
        assert forall|i: int| 1 <= i < ns.len() && #[trigger] ns[i] is EnumVariant && ns[i]->EnumVariant_0@.len() == 2 implies named(ns[i]->EnumVariant_0@[0]) && named(ns[i]->EnumVariant_0@[1]) by { assert(nd(k[i], ns[i])); assert(k[i].rule() == Rule::enum_variant); assert(k[i].ht() < p.ht()); lem_kids(k[i], ns[i]->EnumVariant_0@); }
    } else if p.rule() == Rule::union {
        assert forall|i: int| 3 <= i < ns.len() implies (#[trigger] ns[i] is UnionCase && case_shape(ns[i]->UnionCase_0@)) || (ns[i] is UnionDefault && default_shape(ns[i]->UnionDefault_0@)) by {
            assert(nd(k[i], ns[i])); assert(k[i].rule() == Rule::union_case || k[i].rule() == Rule::union_default); assert(k[i].ht() < p.ht());
            if k[i].rule() == Rule::union_case { lem_kids(k[i], ns[i]->UnionCase_0@); } else { lem_kids(k[i], ns[i]->UnionDefault_0@); } }
    } else if p.rule() == Rule::item {
        assert forall|i: int| 0 <= i < ns.len() && #[trigger] ns[i] is Constant implies ns[i]->Constant_0@.len() == 2 && named(ns[i]->Constant_0@[0]) && named(ns[i]->Constant_0@[1]) by { assert(nd(k[i], ns[i])); assert(k[i].rule() == Rule::constant); assert(k[i].ht() < p.ht()); lem_kids(k[i], ns[i]->Constant_0@); }
        assert forall|i: int| 0 <= i < ns.len() implies decl_node(#[trigger] ns[i]) by { assert(nd(k[i], ns[i])); assert(k[i].rule() == Rule::EOI || k[i].rule() == Rule::constant || k[i].rule() == Rule::enum_type || k[i].rule() == Rule::struct_type || k[i].rule() == Rule::typedef || k[i].rule() == Rule::union); }
    } else if p.rule() == Rule::struct_data_field || p.rule() == Rule::union_data_field {
        assert forall|i: int| 0 <= i < ns.len() && #[trigger] ns[i] is Option implies ns[i]->Option_0@.len() > 0 by { assert(nd(k[i], ns[i])); assert(k[i].rule() == Rule::option); assert(k[i].kids().len() >= 0); }
    } else if p.rule() == Rule::union_case || p.rule() == Rule::union_default { 
        assert(nd(k[0], ns[0])); if k.len() > 1 { assert(nd(k[1], ns[1])); }
    } else if p.rule() == Rule::typedef { assert(nd(k[0], ns[0])); assert(nd(k[1], ns[1])); if k.len() > 2 { assert(nd(k[2], ns[2])); } }
}
pub proof fn lem_walk(p: Pair) ensures forall|ns: Seq<Node>| #[trigger] nds(p.kids(), ns, p.ht()) ==> kid_ok(p.rule(), ns)
{
    assert forall|ns: Seq<Node>| #[trigger] nds(p.kids(), ns, p.ht()) implies kid_ok(p.rule(), ns) by { lem_kids(p, ns); }
}
/// the three indexes of a syntax tree
pub open spec fn ast_of(ns: Seq<Node>, a: Ast) -> bool {
    &&& a.type_index.0@ == tmap(ns, ns.len() as int)
    &&& cexact(a.constant_index.0@, entries(ns, ns.len() as int)) && distinct(entries(ns, ns.len() as int))
    &&& forall|n: Seq<char>| #[trigger] a.generic_index.0@.contains(n) == reaches(ns, n)
}
// pest, from the text on: a grammar rule matches the whole of a text or does not
pub uninterp spec fn pest_parse<'i>(r: Rule, s: Seq<char>) -> Option<Pair<'i>>;
pub struct XDRParser;
impl XDRParser { #[verifier::external_body] pub fn parse<'i>(r: Rule, s: &'i str) -> (x: Result<Pairs<'i>>) ensures x is Ok == pest_parse(r, s@) is Some, x is Ok ==> x->Ok_0.ks() == seq![pest_parse(r, s@)->Some_0] && x->Ok_0.ks()[0].rule() == r { unimplemented!() } }
pub proof fn lem_root(p: Pair) requires p.rule() == Rule::item ensures forall|n: Node| #[trigger] nd(p, n) ==> n is Root && nds(p.kids(), n->Root_0@, p.ht()) && root_ok(n->Root_0@) && const_ok(n->Root_0@)
{
    assert forall|n: Node| #[trigger] nd(p, n) implies n is Root && nds(p.kids(), n->Root_0@, p.ht()) && root_ok(n->Root_0@) && const_ok(n->Root_0@) by { assert(n is Root); lem_kids(p, n->Root_0@); }
}
pub proof fn lem_intro(p: Pair) ensures (forall|ns: Seq<Node>, s: Struct| p.rule() == Rule::struct_type && nds(p.kids(), ns, p.ht()) && #[trigger] is_struct(ns, s) ==> nd(p, Node::Struct(s))), (forall|ns: Seq<Node>, s: Enum| p.rule() == Rule::enum_type && nds(p.kids(), ns, p.ht()) && #[trigger] is_enum(ns, s) ==> nd(p, Node::Enum(s))), (forall|ns: Seq<Node>, s: Union| p.rule() == Rule::union && nds(p.kids(), ns, p.ht()) && #[trigger] is_union(ns, s) ==> nd(p, Node::Union(s))), (forall|ns: Seq<Node>, s: Typedef| p.rule() == Rule::typedef && nds(p.kids(), ns, p.ht()) && #[trigger] is_typedef(ns, s) ==> nd(p, Node::Typedef(s)))
{ reveal_with_fuel(nd, 3); reveal_with_fuel(nds, 3);
  assert forall|ns: Seq<Node>, s: Struct| p.rule() == Rule::struct_type && nds(p.kids(), ns, p.ht()) && #[trigger] is_struct(ns, s) implies nd(p, Node::Struct(s)) by { let n: Node = Node::Struct(s); assert(n->Struct_0 == s); assert(nd(p, n) == (exists|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_struct(ns, n->Struct_0))); }
  assert forall|ns: Seq<Node>, s: Enum| p.rule() == Rule::enum_type && nds(p.kids(), ns, p.ht()) && #[trigger] is_enum(ns, s) implies nd(p, Node::Enum(s)) by { let n: Node = Node::Enum(s); assert(n->Enum_0 == s); assert(nd(p, n) == (exists|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_enum(ns, n->Enum_0))); }
  assert forall|ns: Seq<Node>, s: Union| p.rule() == Rule::union && nds(p.kids(), ns, p.ht()) && #[trigger] is_union(ns, s) implies nd(p, Node::Union(s)) by { let n: Node = Node::Union(s); assert(n->Union_0 == s); assert(nd(p, n) == (exists|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_union(ns, n->Union_0))); }
  assert forall|ns: Seq<Node>, s: Typedef| p.rule() == Rule::typedef && nds(p.kids(), ns, p.ht()) && #[trigger] is_typedef(ns, s) implies nd(p, Node::Typedef(s)) by { let n: Node = Node::Typedef(s); assert(n->Typedef_0 == s); assert(nd(p, n) == (exists|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_typedef(ns, n->Typedef_0))); }
}
