// ---- what the syntax tree of a specification is, by parse tree; what its indexes are, by syntax tree ----
pub open spec fn is_b(b: BasicType, s: Seq<char>) -> bool {
    let t = trim_sp(s);
    if t == "unsigned int"@ || t == "uint32_t"@ || t == "u32"@ || t == "unsigned"@ { b is U32 }
    else if t == "int"@ || t == "int32_t"@ || t == "i32"@ { b is I32 }
    else if t == "unsigned hyper"@ || t == "uint64_t"@ || t == "u64"@ { b is U64 }
    else if t == "hyper"@ || t == "int64_t"@ || t == "i64"@ { b is I64 }
    else if t == "float"@ { b is F32 } else if t == "double"@ { b is F64 } else if t == "string"@ { b is String } else if t == "opaque"@ { b is Opaque } else if t == "bool"@ { b is Bool }
    else { b is Ident && b->Ident_0@ == t }
}
/// the same, but `unsigned` alone is a name (conversion of an owned string)
pub open spec fn is_b_owned(b: BasicType, s: Seq<char>) -> bool { if trim_sp(s) == "unsigned"@ { b is Ident && b->Ident_0@ == trim_sp(s) } else { is_b(b, s) } }
pub open spec fn bstr(b: BasicType) -> Seq<char> {
    match b { BasicType::U32 => "u32"@, BasicType::I32 => "i32"@, BasicType::U64 => "u64"@, BasicType::I64 => "i64"@, BasicType::F32 => "f32"@, BasicType::F64 => "f64"@,
        BasicType::Bool => "bool"@, BasicType::String => "String"@, BasicType::Opaque => "T"@, BasicType::Ident(s) => s@ }
}
/// the name of a basic type, its words apart by one space
pub open spec fn words(t: Seq<char>) -> Seq<char> {
    let w = trim_sp(t);
    if pre(w, "unsigned"@) && suf(w.skip(8), "int"@) { "unsigned int"@ } else if pre(w, "unsigned"@) && suf(w.skip(8), "hyper"@) { "unsigned hyper"@ } else { w }
}
pub open spec fn is_size(z: ArraySize, t: Seq<char>) -> bool { match num_u32(t, 10) { Some(n) => z is Known && z->Known_0 == n, None => z is Constant && z->Constant_0@ == t } }
pub open spec fn is_max(z: Option<ArraySize>, t: Seq<char>) -> bool { let w = trim_sp(t); if w == ""@ { z is None } else { z is Some && is_size(z->Some_0, w) } }
pub open spec fn elem<T>(a: ArrayType<T>) -> T { match a { ArrayType::None(t) => t, ArrayType::FixedSize(t, _) => t, ArrayType::VariableSize(t, _) => t } }

pub open spec fn named(n: Node) -> bool decreases n { match n { Node::Ident(_) => true, Node::Type(_) => true, Node::Option(v) => v@.len() > 0 && named(v@[0]), _ => false } }
pub open spec fn nid(n: Node) -> Seq<char> decreases n {
    match n { Node::Ident(v) => if trim_sp(v@) == "type"@ { "type_t"@ } else { trim_sp(v@) }, Node::Type(b) => bstr(b), Node::Option(v) => if v@.len() > 0 { nid(v@[0]) } else { ""@ }, _ => ""@ }
}
// struct fields
pub open spec fn opt_ident(n: Node) -> bool { n is Option && n->Option_0@.len() > 0 && n->Option_0@[0] is Type && n->Option_0@[0]->Type_0 is Ident }
pub open spec fn a_ident(n: Node) -> bool { n is Type && n->Type_0 is Ident }
pub open spec fn the_ident(n: Node) -> Seq<char> { n->Type_0->Ident_0@ }
pub open spec fn is_field(ns: Seq<Node>, f: StructField) -> bool {
    &&& 2 <= ns.len() <= 3 && ns[0] is Type
    &&& ns.len() == 2 && ns[1] is Option ==> opt_ident(ns[1]) && f.field_name@ == the_ident(ns[1]->Option_0@[0]) && f.field_value == ArrayType::None(ns[0]->Type_0) && f.is_optional
    &&& ns.len() == 2 && !(ns[1] is Option) ==> a_ident(ns[1]) && f.field_name@ == the_ident(ns[1]) && f.field_value == ArrayType::None(ns[0]->Type_0) && !f.is_optional
    &&& ns.len() == 3 ==> a_ident(ns[1]) && f.field_name@ == the_ident(ns[1]) && !f.is_optional && match ns[2] {
            Node::ArrayVariable(t) => f.field_value is VariableSize && f.field_value->VariableSize_0 == ns[0]->Type_0 && is_max(f.field_value->VariableSize_1, t@),
            Node::ArrayFixed(t) => f.field_value is FixedSize && f.field_value->FixedSize_0 == ns[0]->Type_0 && is_size(f.field_value->FixedSize_1, t@),
            _ => false }
}
pub open spec fn field_accepted(ns: Seq<Node>) -> bool {
    ||| ns.len() == 2 && ns[0] is Type && (a_ident(ns[1]) || opt_ident(ns[1]))
    ||| ns.len() == 3 && ns[0] is Type && a_ident(ns[1]) && (ns[2] is ArrayVariable || ns[2] is ArrayFixed)
}
pub open spec fn opts_full(ns: Seq<Node>) -> bool { forall|i: int| 0 <= i < ns.len() && #[trigger] ns[i] is Option ==> ns[i]->Option_0@.len() > 0 }
pub open spec fn field_of(n: Node, f: StructField) -> bool { n is StructDataField && is_field(n->StructDataField_0@, f) }
pub open spec fn is_struct(ns: Seq<Node>, s: Struct) -> bool {
    &&& ns.len() > 0 && s.name@ == nid(ns[0]) && s.fields@.len() == ns.len() - 1
    &&& forall|i: int| 0 <= i < s.fields@.len() ==> field_of(ns[i + 1], #[trigger] s.fields@[i])
}
// enums
pub open spec fn is_value(t: Seq<char>, v: VariantValue) -> bool {
    let n = if pre(t, "0x"@) { num_i32(strip_all(t, "0x"@), 16) } else { num_i32(t, 10) };
    match n { Some(k) => v is Numeric && v->Numeric_0 == k, None => v is String && v->String_0@ == t }
}
pub open spec fn is_variant(ns: Seq<Node>, v: Variant) -> bool {
    &&& ns.len() == 2 && v.name@ == nid(ns[0]) && is_value(nid(ns[1]), v.value)
    &&& v.value is String ==> !(nid(ns[1]).len() > 0 && dig(nid(ns[1])[0], 10) is Some)
}
pub open spec fn variant_of(n: Node, v: Variant) -> bool { n is EnumVariant && is_variant(n->EnumVariant_0@, v) }
pub open spec fn is_enum(ns: Seq<Node>, e: Enum) -> bool {
    &&& ns.len() > 0 && e.name@ == nid(ns[0]) && e.variants@.len() == ns.len() - 1
    &&& forall|i: int| 0 <= i < e.variants@.len() ==> variant_of(ns[i + 1], #[trigger] e.variants@[i])
}
// typedefs
pub open spec fn typedef_shape(ns: Seq<Node>) -> bool { 2 <= ns.len() <= 3 && ns[0] is Type && ns[1] is Type && (ns.len() == 3 ==> ns[2] is ArrayVariable || ns[2] is ArrayFixed) }
pub open spec fn is_typedef(ns: Seq<Node>, t: Typedef) -> bool {
    &&& typedef_shape(ns) && t.target == ns[0]->Type_0
    &&& ns.len() == 2 ==> t.alias == ArrayType::None(ns[1]->Type_0)
    &&& ns.len() == 3 ==> match ns[2] {
            Node::ArrayFixed(z) => t.alias is FixedSize && t.alias->FixedSize_0 == ns[1]->Type_0 && is_size(t.alias->FixedSize_1, z@),
            Node::ArrayVariable(z) => if t.target is Opaque && trim_sp(z@).len() == 0 { t.alias == ArrayType::None(ns[1]->Type_0) }
                else { t.alias is VariableSize && t.alias->VariableSize_0 == ns[1]->Type_0 && is_max(t.alias->VariableSize_1, z@) },
            _ => false }
}
// unions: labels pile up until the statement they select
pub ghost struct Arm { pub labels: Seq<Seq<char>>, pub name: Seq<char>, pub value: ArrayType<BasicType> }
pub ghost struct U { pub pend: Seq<Seq<char>>, pub cases: Seq<Arm>, pub def: Option<Arm>, pub void: Seq<Seq<char>> }
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn arm(c: UnionCase) -> Arm { Arm { labels: strs(c.case_values@), name: c.field_name@, value: c.field_value } }
pub open spec fn arms(v: Seq<UnionCase>) -> Seq<Arm> { v.map_values(|c: UnionCase| arm(c)) }
pub open spec fn oarm(v: Option<UnionCase>) -> Option<Arm> { match v { Some(c) => Some(arm(c)), None => None } }
pub open spec fn plain_field(ns: Seq<Node>) -> bool { ns.len() == 2 && ns[0] is Type && a_ident(ns[1]) }
pub open spec fn arm_of(labels: Seq<Seq<char>>, ns: Seq<Node>) -> Arm { Arm { labels, name: the_ident(ns[1]), value: ArrayType::None(ns[0]->Type_0) } }
pub open spec fn case_shape(ns: Seq<Node>) -> bool { 1 <= ns.len() <= 2 && ns[0] is Type && (ns.len() == 2 ==> ns[1] is UnionVoid || ns[1] is UnionDataField) }
pub open spec fn default_shape(ns: Seq<Node>) -> bool { ns.len() == 1 && (ns[0] is UnionVoid || ns[0] is UnionDataField) }
pub open spec fn union_shape(ns: Seq<Node>) -> bool {
    &&& ns.len() >= 3 && named(ns[0]) && named(ns[1]) && named(ns[2])
    &&& forall|i: int| 3 <= i < ns.len() ==> (#[trigger] ns[i] is UnionCase && case_shape(ns[i]->UnionCase_0@)) || (ns[i] is UnionDefault && default_shape(ns[i]->UnionDefault_0@))
}
pub open spec fn ustep(u: U, n: Node) -> U {
    match n {
        Node::UnionCase(ns) => { let p = u.pend.push(bstr(ns@[0]->Type_0));
            if ns@.len() == 1 { U { pend: p, ..u } } else { match ns@[1] { Node::UnionVoid => U { pend: Seq::empty(), void: u.void + p, ..u }, Node::UnionDataField(f) => U { pend: Seq::empty(), cases: u.cases.push(arm_of(p, f@)), ..u }, _ => u } } }
        Node::UnionDefault(ns) => { let p = u.pend.push("default"@);
            match ns@[0] { Node::UnionVoid => U { pend: Seq::empty(), void: u.void + p, ..u }, Node::UnionDataField(f) => U { pend: Seq::empty(), def: Some(arm_of(p, f@)), ..u }, _ => u } }
        _ => u,
    }
}
pub open spec fn ufold(ns: Seq<Node>, k: int) -> U decreases k { if k <= 0 { U { pend: Seq::empty(), cases: Seq::empty(), def: None, void: Seq::empty() } } else { ustep(ufold(ns, k - 1), ns[k - 1 + 3]) } }
pub open spec fn is_union(ns: Seq<Node>, u: Union) -> bool {
    let f = ufold(ns, ns.len() - 3);
    &&& union_shape(ns) && u.name@ == nid(ns[0]) && u.switch.var_name@ == nid(ns[2]) && is_b_owned(u.switch.var_type, nid(ns[1]))
    &&& arms(u.cases@) == f.cases && oarm(u.default) == f.def && strs(u.void_cases@) == f.void
}
// parse tree -> syntax tree
pub open spec fn nds(ks: Seq<Pair>, ns: Seq<Node>, h: nat) -> bool decreases h, 0int { ks.len() == ns.len() && forall|i: int| 0 <= i < ks.len() && #[trigger] ks[i].ht() < h ==> nd(ks[i], ns[i]) }
pub open spec fn nd(p: Pair, n: Node) -> bool decreases p.ht(), 1int {
    match p.rule() {
        Rule::ident | Rule::ident_const | Rule::ident_value => n is Type && is_b(n->Type_0, p.text()),
        Rule::basic_type => n is Type && is_b(n->Type_0, words(p.text())),
        Rule::array_variable => n is ArrayVariable && n->ArrayVariable_0@ == span(p.kids()),
        Rule::array_fixed => n is ArrayFixed && n->ArrayFixed_0@ == span(p.kids()),
        Rule::option => n is Option && nds(p.kids(), n->Option_0@, p.ht()),
        Rule::constant => n is Constant && nds(p.kids(), n->Constant_0@, p.ht()),
        Rule::enum_variant => n is EnumVariant && nds(p.kids(), n->EnumVariant_0@, p.ht()),
        Rule::struct_data_field => n is StructDataField && nds(p.kids(), n->StructDataField_0@, p.ht()),
        Rule::union_data_field => n is UnionDataField && nds(p.kids(), n->UnionDataField_0@, p.ht()),
        Rule::union_case => n is UnionCase && nds(p.kids(), n->UnionCase_0@, p.ht()),
        Rule::union_default => n is UnionDefault && nds(p.kids(), n->UnionDefault_0@, p.ht()),
        Rule::union_void => n is UnionVoid,
        Rule::EOI => n is EOF,
        Rule::enum_type => n is Enum && exists|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_enum(ns, n->Enum_0),
        Rule::struct_type => n is Struct && exists|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_struct(ns, n->Struct_0),
        Rule::union => n is Union && exists|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_union(ns, n->Union_0),
        Rule::typedef => n is Typedef && exists|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_typedef(ns, n->Typedef_0),
        Rule::item => n is Root && nds(p.kids(), n->Root_0@, p.ht()),
        _ => false,
    }
}

// generic types: names from which opaque data is reachable
pub type Names = spec_fn(Seq<char>) -> bool;
pub open spec fn inset(g: Set<Seq<char>>) -> Names { |n: Seq<char>| g.contains(n) }
pub open spec fn ty_opq(t: BasicType, g: Names) -> bool { t is Opaque || (t is Ident && g(t->Ident_0@)) }
pub open spec fn gname(n: Node) -> Option<Seq<char>> { match n { Node::Struct(s) => Some(s.name@), Node::Union(u) => Some(u.name@), Node::Typedef(t) => Some(bstr(elem(t.alias))), _ => None } }
pub open spec fn inner(n: Node) -> Seq<ArrayType<BasicType>> {
    match n { Node::Struct(s) => s.fields@.map_values(|f: StructField| f.field_value), Node::Union(u) => (u.cases@ + u.default.elems()).map_values(|c: UnionCase| c.field_value), _ => Seq::empty() }
}
/// refers to opaque data or to a name in g
pub open spec fn refers(n: Node, g: Names) -> bool {
    match n { Node::Typedef(t) => t.target is Opaque || g(bstr(t.target)), Node::Struct(_) | Node::Union(_) => exists|i: int| 0 <= i < inner(n).len() && ty_opq(elem(#[trigger] inner(n)[i]), g), _ => false }
}
pub open spec fn decl_node(n: Node) -> bool { n is Struct || n is Union || n is Typedef || n is Enum || n is Constant || n is EOF }
pub open spec fn root_ok(ns: Seq<Node>) -> bool { forall|i: int| 0 <= i < ns.len() ==> decl_node(#[trigger] ns[i]) }
pub open spec fn const_ok(ns: Seq<Node>) -> bool { forall|i: int| 0 <= i < ns.len() && #[trigger] ns[i] is Constant ==> ns[i]->Constant_0@.len() == 2 && named(ns[i]->Constant_0@[0]) && named(ns[i]->Constant_0@[1]) }
pub open spec fn gstep(n: Node, g: Set<Seq<char>>) -> Set<Seq<char>> { if gname(n) is Some && refers(n, inset(g)) { g.insert(gname(n)->Some_0) } else { g } }
pub open spec fn gpass(ns: Seq<Node>, k: int, g: Set<Seq<char>>) -> Set<Seq<char>> decreases k { if k <= 0 { g } else { gstep(ns[k - 1], gpass(ns, k - 1, g)) } }
/// names from which opaque data is reached in at most k steps
pub open spec fn within(ns: Seq<Node>, k: nat) -> Names decreases k {
    if k == 0 { |n: Seq<char>| false } else { let g = within(ns, (k - 1) as nat); |n: Seq<char>| exists|i: int| 0 <= i < ns.len() && gname(#[trigger] ns[i]) == Some(n) && refers(ns[i], g) }
}
pub open spec fn reaches(ns: Seq<Node>, n: Seq<char>) -> bool { exists|k: nat| (#[trigger] within(ns, k))(n) }

// the type index: by name, the last declaration of that name
pub open spec fn tname(n: Node) -> Option<Seq<char>> { match n { Node::Enum(e) => Some(e.name@), _ => gname(n) } }
pub open spec fn ttype(n: Node) -> AstType { match n { Node::Struct(s) => AstType::Struct(s), Node::Union(u) => AstType::Union(u), Node::Enum(e) => AstType::Enum(e), Node::Typedef(t) => AstType::Typedef(t), _ => arbitrary() } }
pub open spec fn tmap(ns: Seq<Node>, k: int) -> Map<Seq<char>, AstType> decreases k { if k <= 0 { Map::empty() } else { match tname(ns[k - 1]) { Some(n) => tmap(ns, k - 1).insert(n, ttype(ns[k - 1])), None => tmap(ns, k - 1) } } }

// the constant index: constants by their text, enum members by enum and member
pub ghost enum CV { Text(Seq<char>), Member(Seq<char>, Seq<char>) }
pub open spec fn cv(c: ConstantType) -> CV { match c { ConstantType::ConstValue(s) => CV::Text(s@), ConstantType::EnumValue { enum_name, variant } => CV::Member(enum_name@, variant@) } }
pub open spec fn members(e: Enum, k: int) -> Seq<(Seq<char>, CV)> decreases k { if k <= 0 { Seq::empty() } else { members(e, k - 1).push((e.variants@[k - 1].name@, CV::Member(e.name@, e.variants@[k - 1].name@))) } }
pub open spec fn entries1(n: Node) -> Seq<(Seq<char>, CV)> { match n { Node::Constant(v) => seq![(nid(v@[0]), CV::Text(nid(v@[1])))], Node::Enum(e) => members(e, e.variants@.len() as int), _ => Seq::empty() } }
pub open spec fn entries(ns: Seq<Node>, k: int) -> Seq<(Seq<char>, CV)> decreases k { if k <= 0 { Seq::empty() } else { entries(ns, k - 1) + entries1(ns[k - 1]) } }
pub open spec fn distinct(es: Seq<(Seq<char>, CV)>) -> bool { forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 != (#[trigger] es[j]).0 }
/// the map has exactly these entries
pub open spec fn cexact(m: Map<Seq<char>, ConstantType>, es: Seq<(Seq<char>, CV)>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> m.dom().contains((#[trigger] es[i]).0) && cv(m[es[i].0]) == es[i].1
    &&& forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == n
}
/// follows constants that name constants
pub open spec fn cend(m: Map<Seq<char>, ConstantType>, n: Seq<char>, k: nat) -> Option<Seq<char>> decreases k {
    if k == 0 { Some(n) } else if !m.dom().contains(n) { Some(n) } else { match m[n] { ConstantType::ConstValue(v) => cend(m, v@, (k - 1) as nat), _ => None } }
}
pub open spec fn cnum(t: Seq<char>) -> Option<int> { if pre(t, "0x"@) { num_u32(t.skip(2), 16) } else { num_u32(t, 10) } }
