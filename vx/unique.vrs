// ---- C11: one parse tree, one syntax tree (vectors and texts are told apart by what they hold only) ----
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn vec_ext<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v;
pub proof fn u_b(t: Seq<char>, a: BasicType, b: BasicType) requires is_b(a, t), is_b(b, t) ensures a == b { broadcast use string_ext; }
pub proof fn u_bo(t: Seq<char>, a: BasicType, b: BasicType) requires is_b_owned(a, t), is_b_owned(b, t) ensures a == b { broadcast use string_ext; if trim_sp(t) != "unsigned"@ { u_b(t, a, b); } }
pub proof fn u_size(t: Seq<char>, a: ArraySize, b: ArraySize) requires is_size(a, t), is_size(b, t) ensures a == b { broadcast use string_ext; }
pub proof fn u_max(t: Seq<char>, a: Option<ArraySize>, b: Option<ArraySize>) requires is_max(a, t), is_max(b, t) ensures a == b { if a is Some { u_size(trim_sp(t), a->Some_0, b->Some_0); } }
pub proof fn u_value(t: Seq<char>, a: VariantValue, b: VariantValue) requires is_value(t, a), is_value(t, b) ensures a == b { broadcast use string_ext; }
pub proof fn u_field(n: Node, a: StructField, b: StructField) requires field_of(n, a), field_of(n, b) ensures a == b {
    broadcast use string_ext;
    let ns = n->StructDataField_0@;
    if ns.len() == 3 { match ns[2] { Node::ArrayVariable(t) => { u_max(t@, a.field_value->VariableSize_1, b.field_value->VariableSize_1); } Node::ArrayFixed(t) => { u_size(t@, a.field_value->FixedSize_1, b.field_value->FixedSize_1); } _ => {} } }
}
pub proof fn u_struct(ns: Seq<Node>, a: Struct, b: Struct) requires is_struct(ns, a), is_struct(ns, b) ensures a == b {
    broadcast use {string_ext, vec_ext};
    assert forall|i: int| 0 <= i < a.fields@.len() implies a.fields@[i] == b.fields@[i] by { u_field(ns[i + 1], a.fields@[i], b.fields@[i]); }
    assert(a.fields@ =~= b.fields@);
    assert(a.name@ == b.name@);
}
pub proof fn u_variant(n: Node, a: Variant, b: Variant) requires variant_of(n, a), variant_of(n, b) ensures a == b { broadcast use string_ext; u_value(nid(n->EnumVariant_0@[1]), a.value, b.value); assert(a.name@ == b.name@); }
pub proof fn u_enum(ns: Seq<Node>, a: Enum, b: Enum) requires is_enum(ns, a), is_enum(ns, b) ensures a == b {
    broadcast use {string_ext, vec_ext};
    assert forall|i: int| 0 <= i < a.variants@.len() implies a.variants@[i] == b.variants@[i] by { u_variant(ns[i + 1], a.variants@[i], b.variants@[i]); }
    assert(a.variants@ =~= b.variants@);
    assert(a.name@ == b.name@);
}
pub proof fn u_typedef(ns: Seq<Node>, a: Typedef, b: Typedef) requires is_typedef(ns, a), is_typedef(ns, b) ensures a == b {
    broadcast use string_ext;
    if ns.len() == 3 { match ns[2] {
        Node::ArrayVariable(t) => { if !(a.target is Opaque && trim_sp(t@).len() == 0) { u_max(t@, a.alias->VariableSize_1, b.alias->VariableSize_1); } }
        Node::ArrayFixed(t) => { u_size(t@, a.alias->FixedSize_1, b.alias->FixedSize_1); } _ => {} } }
}
pub proof fn u_strs(a: Vec<String>, b: Vec<String>) requires strs(a@) == strs(b@) ensures a == b {
    broadcast use {string_ext, vec_ext};
    assert(a@.len() == strs(a@).len() && b@.len() == strs(b@).len());
    assert forall|i: int| 0 <= i < a@.len() implies (#[trigger] a@[i]) == b@[i] by { assert(strs(a@)[i] == a@[i]@ && strs(b@)[i] == b@[i]@); }
    assert(a@ =~= b@);
}
pub proof fn u_case(a: UnionCase, b: UnionCase) requires arm(a) == arm(b) ensures a == b {
    broadcast use string_ext;
    assert(arm(a).labels == strs(a.case_values@) && arm(b).labels == strs(b.case_values@)); u_strs(a.case_values, b.case_values);
    assert(arm(a).name == a.field_name@ && arm(b).name == b.field_name@);
    assert(arm(a).value == a.field_value && arm(b).value == b.field_value);
}
pub proof fn u_union(ns: Seq<Node>, a: Union, b: Union) requires is_union(ns, a), is_union(ns, b) ensures a == b {
    broadcast use {string_ext, vec_ext};
    u_bo(nid(ns[1]), a.switch.var_type, b.switch.var_type);
    u_strs(a.void_cases, b.void_cases);
    assert(a.cases@.len() == arms(a.cases@).len() && b.cases@.len() == arms(b.cases@).len());
    assert forall|i: int| 0 <= i < a.cases@.len() implies (#[trigger] a.cases@[i]) == b.cases@[i] by { assert(arms(a.cases@)[i] == arm(a.cases@[i]) && arms(b.cases@)[i] == arm(b.cases@[i])); u_case(a.cases@[i], b.cases@[i]); }
    assert(a.cases@ =~= b.cases@);
    if a.default is Some { u_case(a.default->Some_0, b.default->Some_0); }
    assert(a.name@ == b.name@ && a.switch.var_name@ == b.switch.var_name@);
}
pub uninterp spec fn str_of(s: Seq<char>) -> &'static str;
pub broadcast axiom fn str_ext(v: &str) ensures str_of(#[trigger] v@) == v;
pub proof fn u_node(p: Pair, a: Node, b: Node) requires nd(p, a), nd(p, b) ensures a == b decreases p.ht(), 1int {
    broadcast use {string_ext, vec_ext, str_ext};
    match p.rule() {
        Rule::ident | Rule::ident_const | Rule::ident_value => { u_b(p.text(), a->Type_0, b->Type_0); }
        Rule::basic_type => { u_b(words(p.text()), a->Type_0, b->Type_0); }
        Rule::array_variable => {} Rule::array_fixed => {} Rule::union_void => {} Rule::EOI => {}
        Rule::option => { u_nodes(p, a->Option_0@, b->Option_0@); }
        Rule::constant => { u_nodes(p, a->Constant_0@, b->Constant_0@); }
        Rule::enum_variant => { u_nodes(p, a->EnumVariant_0@, b->EnumVariant_0@); }
        Rule::struct_data_field => { u_nodes(p, a->StructDataField_0@, b->StructDataField_0@); }
        Rule::union_data_field => { u_nodes(p, a->UnionDataField_0@, b->UnionDataField_0@); }
        Rule::union_case => { u_nodes(p, a->UnionCase_0@, b->UnionCase_0@); }
        Rule::union_default => { u_nodes(p, a->UnionDefault_0@, b->UnionDefault_0@); }
        Rule::item => { u_nodes(p, a->Root_0@, b->Root_0@); }
        Rule::enum_type => { let x = choose|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_enum(ns, a->Enum_0); let y = choose|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_enum(ns, b->Enum_0); u_nodes(p, x, y); u_enum(x, a->Enum_0, b->Enum_0); }
        Rule::struct_type => { let x = choose|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_struct(ns, a->Struct_0); let y = choose|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_struct(ns, b->Struct_0); u_nodes(p, x, y); u_struct(x, a->Struct_0, b->Struct_0); }
        Rule::union => { let x = choose|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_union(ns, a->Union_0); let y = choose|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_union(ns, b->Union_0); u_nodes(p, x, y); u_union(x, a->Union_0, b->Union_0); }
        Rule::typedef => { let x = choose|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_typedef(ns, a->Typedef_0); let y = choose|ns: Seq<Node>| nds(p.kids(), ns, p.ht()) && #[trigger] is_typedef(ns, b->Typedef_0); u_nodes(p, x, y); u_typedef(x, a->Typedef_0, b->Typedef_0); }
        _ => {}
    }
}
pub proof fn u_nodes(p: Pair, a: Seq<Node>, b: Seq<Node>) requires nds(p.kids(), a, p.ht()), nds(p.kids(), b, p.ht()) ensures a == b decreases p.ht(), 0int {
    let ks = p.kids();
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { broadcast use pair_ht; assert(ks[i].ht() < p.ht()); u_node(ks[i], a[i], b[i]); }
    assert(a =~= b);
}
/// C11, first sentence: one text, one module
pub proof fn c11_one_text_one_module(t: Seq<char>, x: Ast, y: Ast, e: Seq<char>) requires ast_text(t, x), ast_text(t, y) ensures module_text(e, dd(x)) == module_text(e, dd(y)) {
    let p = pest_parse(Rule::item, t)->Some_0;
    let a = choose|ns: Seq<Node>| #[trigger] nds(p.kids(), ns, p.ht()) && ast_of(ns, x); let b = choose|ns: Seq<Node>| #[trigger] nds(p.kids(), ns, p.ht()) && ast_of(ns, y);
    u_nodes(p, a, b);
    c11_one_tree(a, x, y);
}
pub proof fn c11_one_tree(a: Seq<Node>, x: Ast, y: Ast) requires ast_of(a, x), ast_of(a, y) ensures dd(x) == dd(y) {
    broadcast use string_ext;
    assert(subdecls(a, a));
    lem_consts_sub(a, a, x.constant_index.0@, y.constant_index.0@); lem_consts_sub(a, a, y.constant_index.0@, x.constant_index.0@);
    assert(x.constant_index.0@ =~= y.constant_index.0@);
    assert(x.generic_index.0@ =~= y.generic_index.0@);
}
/// C11, second sentence: the same declarations in any order, the same module
pub proof fn c11_any_order(s: Seq<char>, t: Seq<char>, x: Ast, y: Ast, a: Seq<Node>, b: Seq<Node>, e: Seq<char>)
    requires ast_text(s, x), ast_text(t, y), nds(pest_parse(Rule::item, s)->Some_0.kids(), a, pest_parse(Rule::item, s)->Some_0.ht()), nds(pest_parse(Rule::item, t)->Some_0.kids(), b, pest_parse(Rule::item, t)->Some_0.ht()),
        subdecls(a, b), subdecls(b, a), names_once(a), names_once(b)
    ensures module_text(e, dd(x)) == module_text(e, dd(y))
{
    let p = pest_parse(Rule::item, s)->Some_0; let q = pest_parse(Rule::item, t)->Some_0;
    let a1 = choose|ns: Seq<Node>| #[trigger] nds(p.kids(), ns, p.ht()) && ast_of(ns, x); let b1 = choose|ns: Seq<Node>| #[trigger] nds(q.kids(), ns, q.ht()) && ast_of(ns, y);
    u_nodes(p, a, a1); u_nodes(q, b, b1);
    order_independent(a, b, x, y);
    assert(x.constant_index.0@ =~= y.constant_index.0@);
}
