//! Dumps the public AST. stdin lines: path; answers one line: `ok <json-ish dump>` | `err ..` | `panic ..`
use fastxdr::ast::indexes::*;
use fastxdr::ast::*;
use std::io::{BufRead, Write};
fn clean(s: &str) -> String {
    s.chars().map(|c| if c == '\n' || c == '\r' { ' ' } else { c }).take(300).collect()
}
fn q(s: &str) -> String { format!("{:?}", s) }
fn size(s: &ArraySize) -> String {
    match s { ArraySize::Known(n) => n.to_string(), ArraySize::Constant(c) => q(c) }
}
fn arr(a: &ArrayType<BasicType>) -> String {
    match a {
        ArrayType::None(t) => format!("[{},null]", ty(t)),
        ArrayType::FixedSize(t, s) => format!("[{},[\"fixed\",{}]]", ty(t), size(s)),
        ArrayType::VariableSize(t, None) => format!("[{},[\"var\",null]]", ty(t)),
        ArrayType::VariableSize(t, Some(s)) => format!("[{},[\"var\",{}]]", ty(t), size(s)),
    }
}
fn ty(t: &BasicType) -> String {
    match t {
        BasicType::U32 => "\"!u32\"".into(), BasicType::U64 => "\"!u64\"".into(), BasicType::I32 => "\"!i32\"".into(), BasicType::I64 => "\"!i64\"".into(),
        BasicType::F32 => "\"!f32\"".into(), BasicType::F64 => "\"!f64\"".into(), BasicType::Bool => "\"!bool\"".into(), BasicType::String => "\"!string\"".into(),
        BasicType::Opaque => "\"!opaque\"".into(), BasicType::Ident(s) => q(s),
    }
}
fn vv(v: &VariantValue) -> String {
    match v { VariantValue::Numeric(n) => n.to_string(), VariantValue::String(s) => q(s) }
}
fn case(c: &UnionCase) -> String {
    format!("{{\"labels\":[{}],\"name\":{},\"value\":{}}}", c.case_values.iter().map(|s| q(s)).collect::<Vec<_>>().join(","), q(&c.field_name), arr(&c.field_value))
}
fn one(name: &str, t: &AstType) -> String {
    match t {
        AstType::Struct(s) => format!("{{\"k\":\"struct\",\"name\":{},\"fields\":[{}]}}", q(&s.name), s.fields.iter()
            .map(|f| format!("{{\"name\":{},\"value\":{},\"opt\":{}}}", q(&f.field_name), arr(&f.field_value), f.is_optional)).collect::<Vec<_>>().join(",")),
        AstType::Enum(e) => format!("{{\"k\":\"enum\",\"name\":{},\"members\":[{}]}}", q(&e.name), e.variants.iter()
            .map(|v| format!("[{},{}]", q(&v.name), vv(&v.value))).collect::<Vec<_>>().join(",")),
        AstType::Union(u) => format!("{{\"k\":\"union\",\"name\":{},\"var\":{},\"sw\":{},\"cases\":[{}],\"void\":[{}],\"default\":{}}}", q(&u.name), q(&u.switch.var_name), ty(&u.switch.var_type),
            u.cases.iter().map(case).collect::<Vec<_>>().join(","), u.void_cases.iter().map(|s| q(s)).collect::<Vec<_>>().join(","),
            u.default.as_ref().map(case).unwrap_or("null".into())),
        AstType::Typedef(t) => format!("{{\"k\":\"typedef\",\"name\":{},\"target\":{},\"alias\":{}}}", q(name), ty(&t.target), arr(&t.alias)),
    }
}
fn dump(a: &Ast) -> String {
    // by-name retrieval must agree with iteration
    let mut types = vec![];
    let mut bad = vec![];
    for (n, t) in a.types().0.iter() {
        types.push(format!("{}:{}", q(n), one(n, t)));
        match a.types().get(n) {
            Some(x) if one(n, x) == one(n, t) => {}
            _ => bad.push(q(n)),
        }
    }
    if a.types().iter().count() != types.len() { bad.push("\"iter\"".into()); }
    let mut consts = vec![];
    for (n, c) in a.constants().0.iter() {
        let d = |c: &ConstantType| match c {
            ConstantType::ConstValue(s) => format!("[\"const\",{}]", q(s)),
            ConstantType::EnumValue { enum_name, variant } => format!("[\"enum\",{},{}]", q(enum_name), q(variant)),
        };
        consts.push(format!("{}:{}", q(n), d(c)));
        match a.constants().get(n) { Some(x) if d(x) == d(c) => {} _ => bad.push(q(n)) }
    }
    let mut gens: Vec<String> = a.generics().0.iter().map(|s| q(s)).collect();
    gens.sort();
    for (n, _) in a.types().0.iter() {
        if a.generics().contains(n) != a.generics().0.iter().any(|g| g == n) { bad.push(q(n)); }
    }
    format!("{{\"types\":{{{}}},\"consts\":{{{}}},\"generics\":[{}],\"bad\":[{}]}}", types.join(","), consts.join(","), gens.join(","), bad.join(","))
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(|| {
        for line in std::io::stdin().lock().lines() {
            let line = line.unwrap();
            let text = String::from_utf8_lossy(&std::fs::read(&line).unwrap()).into_owned();
            let r = std::panic::catch_unwind(|| Ast::new(&text).map(|a| dump(&a)).map_err(|e| e.to_string()));
            let msg = match r {
                Ok(Ok(s)) => format!("ok {}", s),
                Ok(Err(e)) => format!("err {}", clean(&e)),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    format!("panic {}", clean(&m))
                }
            };
            println!("{}", msg);
            std::io::stdout().flush().unwrap();
        }
    }).unwrap();
    h.join().unwrap();
}
