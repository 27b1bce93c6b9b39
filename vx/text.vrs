// ---- what the emitters write, by what the Ast holds (fx/textproof.py explains the brackets) ----
/// the parts of an Ast the output depends on
pub ghost struct D { pub t: Map<Seq<char>, AstType>, pub c: Map<Seq<char>, ConstantType>, pub g: Set<Seq<char>> }
pub open spec fn dd(a: Ast) -> D { D { t: a.type_index.0@, c: a.constant_index.0@, g: a.generic_index.0@ } }
/// which decoder: the container type, the argument type, how the cursor is passed on
pub ghost struct K { pub tn: Seq<char>, pub tf: Seq<char>, pub r: ReferenceType }
pub open spec fn kk<T: FromTemplate>(t: T) -> K { K { tn: t.tn(), tf: t.tf(), r: t.rt() } }
pub open spec fn nil() -> Seq<char> { Seq::empty() }
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
pub broadcast proof fn derefs_refs<T>(a: Seq<&T>, b: Seq<T>) requires #[trigger] refs(a, b) ensures derefs(a) == b { assert(derefs(a) =~= b); }
pub broadcast proof fn derefs_cat<T>(a: Seq<&T>, b: Seq<&T>) ensures #[trigger] derefs(a + b) == derefs(a) + derefs(b) { assert(derefs(a + b) =~= derefs(a) + derefs(b)); }
pub broadcast proof fn derefs_at<T>(s: Seq<&T>, i: int) requires 0 <= i < s.len() ensures derefs(s).len() == s.len(), #[trigger] derefs(s)[i] == *s[i] {}
pub broadcast proof fn derefs_push<T>(s: Seq<&T>, x: &T) ensures #[trigger] derefs(s.push(x)) == derefs(s).push(*x) { assert(derefs(s.push(x)) =~= derefs(s).push(*x)); }
pub broadcast proof fn derefs_len<T>(s: Seq<&T>) ensures #[trigger] derefs(s).len() == s.len() {}
pub open spec fn refapp(r: ReferenceType, a: Seq<char>) -> Seq<char> { match r { ReferenceType::ByValue => @[a; ("&mut *v"@)], ReferenceType::ByRef => @[a; ("&mut v"@)] } }
// names
pub open spec fn safe_app(a: Seq<char>, s: Seq<char>) -> Seq<char> { if reserved(s) { @[a; (s) "_v"] } else if true_false(s) { @[a; (lower(s))] } else { @[a; (s)] } }
pub open spec fn nd_app(a: Seq<char>, s: Seq<char>) -> Seq<char> { if s.len() > 0 && numeric(s[0]) { @[a; "v_" (s)] } else { @[a; (s)] } }
pub open spec fn bname(b: BasicType) -> Seq<char> { match b { BasicType::Ident(s) => type_name_text(s@), _ => bstr(b) } }
/// a declaration's own name, as a typedef's the target's
pub open spec fn iname(t: AstType) -> Seq<char> { match t { AstType::Struct(s) => s.name@, AstType::Union(s) => s.name@, AstType::Enum(s) => s.name@, AstType::Typedef(s) => bstr(s.target) } }
pub open spec fn arr<T: VShow>(a: Seq<char>, x: ArrayType<T>, b: Seq<char>) -> Seq<char> {
    match x { ArrayType::None(t) => @[a; {t.app(_)} (b)], ArrayType::FixedSize(t, s) => @[a; "[" {t.app(_)} (b) "; " {s.app(_)} "]"], ArrayType::VariableSize(t, _) => @[a; "Vec<" {t.app(_)} (b) ">"] }
}
pub uninterp spec fn joined(p: Seq<Seq<char>>, s: Seq<char>) -> Seq<char>;
pub open spec fn views<S: AsRefStr>(b: Seq<S>) -> Seq<Seq<char>> { b.map_values(|s: S| s.sv()) }
pub open spec fn strviews(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
pub broadcast proof fn views_str<S: AsRefStr>(v: Seq<&str>, b: Seq<S>) requires v.len() == b.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == b[i].sv() ensures #![trigger strviews(v), views(b)] strviews(v) == views(b) { assert(strviews(v) =~= views(b)); }
pub open spec fn parts_to<S: AsRefStr>(v: Vec<&str>, s: Seq<&S>, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] (v@)[i])@ == s[i].sv() }
pub broadcast proof fn views_one<S: AsRefStr>(b: Seq<S>) requires b.len() == 1 ensures #[trigger] views(b) == seq![b[0].sv()] { assert(views(b) =~= seq![b[0].sv()]); }
pub open spec fn bounds<S: AsRefStr>(b: Option<&[S]>) -> Seq<char> { match b { Some(s) => @[nil(); "<" (joined(views(s@), ", "@)) ">"], None => ""@ } }
pub open spec fn bound_t() -> Seq<char> { @[nil(); "<" (joined(seq!["T"@], ", "@)) ">"] }
// constants
pub open spec fn chas(d: D, n: Seq<char>) -> bool { cend(d.c, n, d.c.len() + 1) is Some && cnum(cend(d.c, n, d.c.len() + 1)->Some_0) is Some }
pub open spec fn cval(d: D, n: Seq<char>) -> int { cnum(cend(d.c, n, d.c.len() + 1)->Some_0)->Some_0 }
// ---- types ----
pub open spec fn consts_text(a: Seq<char>, d: D, k: int) -> Seq<char> decreases k {
    if k <= 0 { a } else { let p = consts_text(a, d, k - 1); let n = skeys(d.c.dom())[k - 1];
        match d.c[n] { ConstantType::EnumValue { .. } => p, ConstantType::ConstValue(s) => @[p; "pub const " (n) ": u32 = " (s@) ";\n"] } }
}
pub open spec fn bound(a: Seq<char>, d: D, n: Seq<char>) -> Seq<char> { if d.g.contains(n) { @[a; "<T> where T: AsRef<[u8]> + Debug"] } else { a } }
pub open spec fn field_ty(a: Seq<char>, d: D, f: StructField) -> Seq<char> {
    let a = @[a; "pub " {safe_app(_, f.field_name@)} ": "];
    let a = if f.is_optional { @[a; "Option<Box<"] } else { a };
    let a = match elem(f.field_value) { BasicType::Opaque => @[a; "T"], BasicType::String => @[a; "String"], BasicType::Ident(i) => if d.g.contains(i@) { arr(a, f.field_value, bound_t()) } else { arr(a, f.field_value, ""@) }, _ => arr(a, f.field_value, ""@) };
    let a = if f.is_optional { @[a; ">>"] } else { a };
    @[a; ",\n"]
}
pub open spec fn fields_ty(a: Seq<char>, d: D, s: Seq<StructField>, k: int) -> Seq<char> decreases k { if k <= 0 { a } else { field_ty(fields_ty(a, d, s, k - 1), d, s[k - 1]) } }
pub open spec fn label_ty(a: Seq<char>, d: D, v: ArrayType<BasicType>, l: Seq<char>) -> Seq<char> {
    let a = @[a; {nd_app(_, l)} "("];
    let a = match elem(v) { BasicType::Opaque => @[a; "T"], BasicType::String => @[a; "String"], BasicType::Ident(i) => if d.g.contains(i@) { @[a; (i@) "<T>"] } else { arr(a, v, ""@) }, _ => arr(a, v, ""@) };
    @[a; "),\n"]
}
pub open spec fn labels_ty(a: Seq<char>, d: D, v: ArrayType<BasicType>, s: Seq<String>, k: int) -> Seq<char> decreases k { if k <= 0 { a } else { label_ty(labels_ty(a, d, v, s, k - 1), d, v, s[k - 1]@) } }
pub open spec fn arms_ty(a: Seq<char>, d: D, s: Seq<UnionCase>, k: int) -> Seq<char> decreases k { if k <= 0 { a } else { labels_ty(arms_ty(a, d, s, k - 1), d, s[k - 1].field_value, s[k - 1].case_values@, s[k - 1].case_values@.len() as int) } }
pub open spec fn voids_ty(a: Seq<char>, s: Seq<String>, k: int) -> Seq<char> decreases k { if k <= 0 { a } else { @[voids_ty(a, s, k - 1); {nd_app(_, s[k - 1]@)} ",\n"] } }
pub open spec fn members_ty(a: Seq<char>, s: Seq<Variant>, k: int) -> Seq<char> decreases k { if k <= 0 { a } else { @[members_ty(a, s, k - 1); (s[k - 1].name@) " = " {s[k - 1].value.app(_)} ",\n"] } }
pub uninterp spec fn split_nth(s: Seq<char>, p: Seq<char>, n: int) -> Option<Seq<char>>;
#[verifier::opaque] pub open spec fn item_ty(a: Seq<char>, d: D, e: Seq<char>, t: AstType) -> Seq<char> {
    match t {
        AstType::Struct(v) => { let a = bound(@[a; (e) "\n" "pub struct " (v.name@)], d, v.name@); @[fields_ty(@[a; " {\n"], d, v.fields@, v.fields@.len() as int); "}\n"] }
        AstType::Union(v) => { let a = bound(@[a; (e) "\n" "pub enum " (v.name@)], d, v.name@); let cs = v.cases@ + v.default.elems();
            @[voids_ty(arms_ty(@[a; " {\n"], d, cs, cs.len() as int), v.void_cases@, v.void_cases@.len() as int); "}\n"] }
        AstType::Enum(v) => @[members_ty(@[a; (e) "\n" "#[repr(u32)]\n" "pub enum " (v.name@) " {\n"], v.variants@, v.variants@.len() as int); "}\n"],
        AstType::Typedef(v) => if v.target == elem(v.alias) { a } else {
            let g = d.g.contains(bstr(v.target));
            let a = @[a; (e) "\n" "pub struct " (bstr(elem(v.alias)))];
            let a = if g || v.target is Opaque { @[a; "<" "T: AsRef<[u8]> + Debug" ">"] } else { a };
            if v.target is Opaque { @[a; "(pub T);\n"] }
            else if v.target is String && v.alias is VariableSize { @[a; "(pub " (bname(v.target)) ");\n"] }
            else { let x = match v.alias { ArrayType::None(_) => ArrayType::None(v.target), ArrayType::FixedSize(_, s) => ArrayType::FixedSize(v.target, s), ArrayType::VariableSize(_, s) => ArrayType::VariableSize(v.target, s) };
                if g { @[a; " (pub " {arr(_, x, bound_t())} ");\n"] } else { @[a; "(pub " {arr(_, x, ""@)} ");\n"] } } }
    }
}
pub open spec fn items_ty(a: Seq<char>, d: D, e: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 0 { a } else { item_ty(items_ty(a, d, e, k - 1), d, e, d.t[skeys(d.t.dom())[k - 1]]) } }
#[verifier::opaque] pub open spec fn types_text(a: Seq<char>, d: D, e: Seq<char>) -> Seq<char> { items_ty(consts_text(a, d, skeys(d.c.dom()).len() as int), d, e, skeys(d.t.dom()).len() as int) }
// ---- decoders ----
pub open spec fn basic(a: Seq<char>, d: D, t: BasicType, alias: bool, r: ReferenceType) -> Seq<char> decreases (if alias { 0int } else { 1int }) {
    match t {
        BasicType::U32 => @[a; "v.read_u32()"], BasicType::U64 => @[a; "v.read_u64()"], BasicType::I32 => @[a; "v.read_i32()"], BasicType::I64 => @[a; "v.read_i64()"], BasicType::F32 => @[a; "v.read_f32()"], BasicType::F64 => @[a; "v.read_f64()"],
        BasicType::Bool => @[a; "v.read_bool()"], BasicType::String => @[a; "v.read_string(None)"], BasicType::Opaque => @[a; "v.read_variable_bytes(None)"],
        BasicType::Ident(c) => if alias { @[a; (c@) "::try_from(" {refapp(r, _)} ")"] } else { match d.t[c@] { AstType::Typedef(v) => basic(a, d, v.target, true, r), x => @[a; (iname(x)) "::try_from(" {refapp(r, _)} ")"] } },
    }
}
pub open spec fn rep(a: Seq<char>, d: D, t: BasicType, alias: bool, r: ReferenceType, k: int) -> Seq<char> decreases k { if k <= 0 { a } else { @[rep(a, d, t, alias, r, k - 1); {basic(_, d, t, alias, r)} "?,\n"] } }
pub open spec fn under(d: D, t: BasicType, alias: bool) -> BasicType { if !alias && d.t.dom().contains(bstr(t)) && d.t[bstr(t)] is Typedef { d.t[bstr(t)]->Typedef_0.target } else { t } }
pub open spec fn fixed_from(a: Seq<char>, d: D, t: BasicType, n: int, alias: bool, r: ReferenceType) -> Seq<char> {
    if under(d, t, alias) is Opaque { @[a; "v.read_bytes(" (dec(n)) ")?"] } else { @[rep(@[a; "[\n"], d, t, alias, r, n); "]"] }
}
pub open spec fn elem_name(d: D, k: K, t: BasicType, alias: bool) -> Seq<char> {
    let s = if !alias && d.t.dom().contains(bname(t)) { iname(d.t[bname(t)]) } else { bname(t) };
    if d.g.contains(s) { @[nil(); (s) "<" (k.tn) ">"] } else { s }
}
pub open spec fn max_text(n: Option<int>) -> Seq<char> { match n { Some(n) => @[nil(); "Some(" (dec(n)) ")"], None => "None"@ } }
pub open spec fn var_from(a: Seq<char>, d: D, k: K, t: BasicType, n: Option<int>, alias: bool) -> Seq<char> {
    match under(d, t, alias) { BasicType::Opaque => @[a; "v.read_variable_bytes(" (max_text(n)) ")?"], BasicType::String => @[a; "v.read_string(" (max_text(n)) ")?"], _ => @[a; "v.read_variable_array::<" (elem_name(d, k, t, alias)) ">(" (max_text(n)) ")?"] }
}
#[verifier::opaque] pub open spec fn arr_from(a: Seq<char>, d: D, k: K, t: ArrayType<BasicType>, alias: bool, r: ReferenceType) -> Seq<char> {
    match t {
        ArrayType::None(t) => @[basic(a, d, t, alias, r); "?"],
        ArrayType::FixedSize(t, ArraySize::Known(n)) => fixed_from(a, d, t, n as int, alias, r),
        ArrayType::FixedSize(t, ArraySize::Constant(s)) => fixed_from(a, d, t, cval(d, s@), alias, r),
        ArrayType::VariableSize(t, Some(ArraySize::Known(n))) => var_from(a, d, k, t, Some(n as int), alias),
        ArrayType::VariableSize(t, Some(ArraySize::Constant(s))) => var_from(a, d, k, t, Some(cval(d, s@)), alias),
        ArrayType::VariableSize(t, None) => var_from(a, d, k, t, None, alias),
    }
}
pub open spec fn head_from(a: Seq<char>, d: D, k: K, n: Seq<char>) -> Seq<char> {
    let a = if d.g.contains(n) { @[a; "impl TryFrom<" (k.tf) "> for " (n) "<" (k.tn) ">"] } else { @[a; "impl TryFrom<" (k.tf) "> for " (n)] };
    @[a; " {\ntype Error = Error;\n\nfn try_from(mut v: " (k.tf) ") -> Result<Self, Self::Error> {\n"]
}
pub open spec fn field_from(a: Seq<char>, d: D, k: K, f: StructField) -> Seq<char> {
    let a = @[a; {safe_app(_, f.field_name@)} ": "];
    if f.is_optional { @[a; "{ match v.read_u32()? {\n" "0 => None,\n" "1 => Some(Box::new(" (bname(elem(f.field_value))) "::try_from(" {refapp(k.r, _)} ")?)),\n" "d => return Err(Error::UnknownOptionVariant(d)),\n" "}},\n"] }
    else { @[arr_from(a, d, k, f.field_value, true, k.r); ",\n"] }
}
pub open spec fn fields_from(a: Seq<char>, d: D, k: K, s: Seq<StructField>, i: int) -> Seq<char> decreases i { if i <= 0 { a } else { field_from(fields_from(a, d, k, s, i - 1), d, k, s[i - 1]) } }
/// the member an enum discriminant's label stands for
pub open spec fn value_of(t: Seq<char>) -> VariantValue { choose|v: VariantValue| is_value(t, v) }
pub broadcast proof fn lem_value(t: Seq<char>, v: VariantValue) requires #[trigger] is_value(t, v) ensures value_of(t) == v { broadcast use {string_ext}; let w = value_of(t); assert(is_value(t, w)); }
pub open spec fn vfind(s: Seq<Variant>, x: VariantValue, k: int) -> Option<Variant> decreases k { if k <= 0 { None } else if vfind(s, x, k - 1) is Some { vfind(s, x, k - 1) } else if s[k - 1].value == x { Some(s[k - 1]) } else { None } }
pub open spec fn found(r: Option<&Variant>, f: Option<Variant>) -> bool { match f { Some(x) => r is Some && *r->Some_0 == x, None => r is None } }
pub proof fn lem_vfind1(s: Seq<Variant>, x: VariantValue, i: int, k: int) requires i <= k, vfind(s, x, i) is Some ensures vfind(s, x, k) == vfind(s, x, i) decreases k { if i < k { lem_vfind1(s, x, i, k - 1); } }
pub broadcast proof fn lem_vfind(s: Seq<Variant>, x: VariantValue, i: int, k: int) requires i <= k, #[trigger] vfind(s, x, i) is Some ensures #[trigger] vfind(s, x, k) == vfind(s, x, i) { lem_vfind1(s, x, i, k); }
/// a label that is a constant stands for its value
pub open spec fn label_value(d: D, l: Seq<char>) -> Seq<char> { if d.c.dom().contains(l) && d.c[l] is ConstValue && chas(d, l) { dec(cval(d, l)) } else { l } }
pub open spec fn literal(d: D, sw: BasicType, l: Seq<char>) -> Seq<char> {
    let v = label_value(d, l);
    let m = if d.t.dom().contains(bstr(sw)) && d.t[bstr(sw)] is Enum { vfind(d.t[bstr(sw)]->Enum_0.variants@, value_of(v), d.t[bstr(sw)]->Enum_0.variants@.len() as int) } else { None };
    match m { Some(m) => { let e = d.t[bstr(sw)]->Enum_0.name@; @[nil(); "c if c == " (e) "::" (m.name@) " as " (e)] }, None => safe_app(nil(), v) }
}
#[verifier::opaque] pub open spec fn matcher(d: D, sw: BasicType, l: Seq<char>) -> Seq<char> {
    if !d.c.dom().contains(l) { literal(d, sw, l) } else { match d.c[l] { ConstantType::ConstValue(v) => literal(d, sw, v@), ConstantType::EnumValue { enum_name, variant } => @[nil(); "c if c == " (enum_name@) "::" (variant@) " as " (bname(sw))] } }
}
pub open spec fn labels_from(a: Seq<char>, d: D, k: K, sw: BasicType, v: ArrayType<BasicType>, s: Seq<String>, i: int) -> Seq<char> decreases i {
    if i <= 0 { a } else { @[labels_from(a, d, k, sw, v, s, i - 1); (matcher(d, sw, s[i - 1]@)) " => Self::" {nd_app(_, s[i - 1]@)} "(" {arr_from(_, d, k, v, true, k.r)} "),\n"] }
}
pub open spec fn arms_from(a: Seq<char>, d: D, k: K, sw: BasicType, s: Seq<UnionCase>, i: int) -> Seq<char> decreases i { if i <= 0 { a } else { labels_from(arms_from(a, d, k, sw, s, i - 1), d, k, sw, s[i - 1].field_value, s[i - 1].case_values@, s[i - 1].case_values@.len() as int) } }
/// void labels but `default`, or only `default`
pub open spec fn vsel(s: Seq<String>, dflt: bool, i: int) -> Seq<String> decreases i { if i <= 0 { Seq::empty() } else if (s[i - 1]@ == "default"@) == dflt { vsel(s, dflt, i - 1).push(s[i - 1]) } else { vsel(s, dflt, i - 1) } }
pub open spec fn has_default(s: Seq<String>, i: int) -> bool decreases i { i > 0 && (has_default(s, i - 1) || s[i - 1]@ == "default"@) }
pub open spec fn voids_from(a: Seq<char>, d: D, sw: BasicType, s: Seq<String>, i: int) -> Seq<char> decreases i {
    if i <= 0 { a } else { @[voids_from(a, d, sw, s, i - 1); (if s[i - 1]@ == "default"@ { "_"@ } else { matcher(d, sw, s[i - 1]@) }) " => Self::" {nd_app(_, s[i - 1]@)} ",\n"] }
}
pub open spec fn members_from(a: Seq<char>, s: Seq<Variant>, i: int) -> Seq<char> decreases i { if i <= 0 { a } else { @[members_from(a, s, i - 1); {s[i - 1].value.app(_)} " => Self::" (s[i - 1].name@) ",\n"] } }
pub open spec fn void_order(v: Union) -> Seq<String> { vsel(v.void_cases@, false, v.void_cases@.len() as int) + vsel(v.void_cases@, true, v.void_cases@.len() as int) }
#[verifier::opaque] pub open spec fn item_from(a: Seq<char>, d: D, k: K, t: AstType) -> Seq<char> {
    match t {
        AstType::Struct(v) => @[fields_from(@[head_from(a, d, k, v.name@); "Ok(" (v.name@) " {\n"], d, k, v.fields@, v.fields@.len() as int); "})\n" "}\n}\n"],
        AstType::Union(v) => {
            let sw = alias_end(d.t, v.switch.var_type, d.t.len());
            let x = if v.switch.var_name@ == "v"@ { "v_v"@ } else { safe_app(nil(), v.switch.var_name@) };
            let a = basic(@[head_from(a, d, k, v.name@); "let " (x) " = "], d, sw, false, k.r);
            let a = arms_from(@[a; "?;\n" "Ok(match " (x) " {\n"], d, k, sw, v.cases@, v.cases@.len() as int);
            let w = void_order(v);
            let a = voids_from(a, d, sw, w, w.len() as int);
            let a = match v.default { Some(c) => @[a; "_ => Self::default(" {arr_from(_, d, k, c.field_value, true, k.r)} "),\n"], None => if has_default(w, w.len() as int) { a } else { @[a; "d => return Err(Error::UnknownVariant(d as i32)),\n"] } };
            @[a; "})\n" "}\n}\n"]
        }
        AstType::Enum(v) => @[members_from(@[head_from(a, d, k, v.name@); "Ok(match v.read_i32()? {\n"], v.variants@, v.variants@.len() as int); "d => return Err(Error::UnknownVariant(d as i32)),\n})\n" "}\n}\n"],
        AstType::Typedef(v) => if v.target == elem(v.alias) { a } else { @[arr_from(@[head_from(a, d, k, bstr(elem(v.alias))); "Ok(Self("], d, k, v.alias, false, k.r); "))\n" "}\n}\n"] },
    }
}
pub open spec fn items_from(a: Seq<char>, d: D, k: K, i: int) -> Seq<char> decreases i { if i <= 0 { a } else { item_from(items_from(a, d, k, i - 1), d, k, d.t[skeys(d.t.dom())[i - 1]]) } }
#[verifier::opaque] pub open spec fn from_text(a: Seq<char>, d: D, k: K) -> Seq<char> { items_from(a, d, k, skeys(d.t.dom()).len() as int) }
// ---- sizes ----
pub open spec fn head_size(a: Seq<char>, d: D, k: K, n: Seq<char>) -> Seq<char> {
    let a = if d.g.contains(n) { @[a; "impl WireSize for " (n) "<" (k.tn) "> {\n"] } else { @[a; "impl WireSize for " (n) " {\n"] };
    @[a; "fn wire_size(&self) -> usize {\n"]
}
pub open spec fn field_size(a: Seq<char>, f: StructField) -> Seq<char> {
    let a = @[a; "self." {safe_app(_, f.field_name@)} ".wire_size() +\n"];
    if elem(f.field_value) is Opaque { let a = @[a; " pad_length(self." {safe_app(_, f.field_name@)} ".wire_size()) +\n"]; if f.field_value is VariableSize { @[a; "4 +\n"] } else { a } } else { a }
}
pub open spec fn fields_size(a: Seq<char>, s: Seq<StructField>, i: int) -> Seq<char> decreases i { if i <= 0 { a } else { field_size(fields_size(a, s, i - 1), s[i - 1]) } }
pub open spec fn labels_size(a: Seq<char>, opq: bool, s: Seq<String>, i: int) -> Seq<char> decreases i {
    if i <= 0 { a } else { let a = @[labels_size(a, opq, s, i - 1); "Self::" {nd_app(_, s[i - 1]@)} "(inner) => inner.wire_size()"]; if opq { @[a; " + pad_length(inner.wire_size()),\n"] } else { @[a; ",\n"] } }
}
pub open spec fn arms_size(a: Seq<char>, s: Seq<UnionCase>, i: int) -> Seq<char> decreases i { if i <= 0 { a } else { labels_size(arms_size(a, s, i - 1), elem(s[i - 1].field_value) is Opaque, s[i - 1].case_values@, s[i - 1].case_values@.len() as int) } }
pub open spec fn voids_size(a: Seq<char>, s: Seq<String>, i: int) -> Seq<char> decreases i { if i <= 0 { a } else { @[voids_size(a, s, i - 1); "Self::" {nd_app(_, s[i - 1]@)} " => 0,\n"] } }
#[verifier::opaque] pub open spec fn item_size(a: Seq<char>, d: D, k: K, t: AstType) -> Seq<char> {
    match t {
        AstType::Struct(v) => @[fields_size(head_size(a, d, k, v.name@), v.fields@, v.fields@.len() as int); "0\n" "}\n}\n"],
        AstType::Union(v) => { let sw = alias_end(d.t, v.switch.var_type, d.t.len()); let cs = v.cases@ + v.default.elems();
            let a = @[head_size(a, d, k, v.name@); (dec(if sw is U64 || sw is I64 { 8int } else { 4int })) " + match self {\n"];
            @[voids_size(arms_size(a, cs, cs.len() as int), v.void_cases@, v.void_cases@.len() as int); "}\n" "}\n}\n"] }
        AstType::Enum(v) => @[head_size(a, d, k, v.name@); "4\n" "}\n}\n"],
        AstType::Typedef(v) => if v.target == elem(v.alias) { a } else {
            let a = @[head_size(a, d, k, bstr(elem(v.alias))); "self.0.wire_size()\n"];
            let a = if v.target is Opaque { if v.alias is FixedSize { @[a; "+ pad_length(self.0.wire_size())\n"] } else { @[a; "+ pad_length(self.0.wire_size()) + 4\n"] } } else { a };
            @[a; "}\n}\n"] },
    }
}
pub open spec fn items_size(a: Seq<char>, d: D, k: K, i: int) -> Seq<char> decreases i { if i <= 0 { a } else { item_size(items_size(a, d, k, i - 1), d, k, d.t[skeys(d.t.dom())[i - 1]]) } }
#[verifier::opaque] pub open spec fn size_text(a: Seq<char>, d: D, k: K) -> Seq<char> { items_size(a, d, k, skeys(d.t.dom()).len() as int) }
// ---- the module ----
pub uninterp spec fn header_text() -> Seq<char>;
pub open spec fn k_owned() -> K { K { tn: "Bytes"@, tf: "Bytes"@, r: ReferenceType::ByRef } }
pub open spec fn k_borrowed() -> K { K { tn: "Bytes"@, tf: "&mut Bytes"@, r: ReferenceType::ByValue } }
pub open spec fn module_text(e: Seq<char>, d: D) -> Seq<char> {
    let a = types_text(@[nil(); (header_text()) "\n"], d, e);
    @[size_text(from_text(from_text(a, d, k_owned()), d, k_borrowed()), d, k_owned()); "}\n"]
}
pub open spec fn ast_text(t: Seq<char>, a: Ast) -> bool { pest_parse(Rule::item, t) is Some && exists|ns: Seq<Node>| #[trigger] nds(pest_parse(Rule::item, t)->Some_0.kids(), ns, pest_parse(Rule::item, t)->Some_0.ht()) && ast_of(ns, a) }
