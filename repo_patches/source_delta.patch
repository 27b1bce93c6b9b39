From 24cae5a19d7a006d8afc1ff05305a2359883c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 01/17] fix: reject opaque payloads whose padding is missing
 instead of panicking

---
 src/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index bd6e379..50f5c0c 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -133,8 +133,8 @@ pub mod xdr {
 
         /// Try to read an opaque XDR array with a fixed length and padded modulo 4.
         fn read_bytes(&mut self, n: usize) -> Result<Self::Sliced, Error> {
-            // Validate the buffer contains enough data
-            if self.remaining() < n {
+            // Validate the buffer contains enough data, including any padding.
+            if self.remaining() < n || self.remaining() - n < pad_length(n) {
                 return Err(Error::InvalidLength);
             }
 
-- 
2.43.0


From df198502af34ffcb4fa429797f474fea38a0fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 02/17] fix: do not allocate counted arrays from the wire
 count, check array padding

---
 src/header.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 50f5c0c..a47682a 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -160,7 +160,10 @@ pub mod xdr {
 
             // Try and decode n instances of T.
             let mut sum = 0;
-            let mut out = Vec::with_capacity(n);
+            //
+            // Nothing is allocated up front: n is read from the wire and may far
+            // exceed the number of elements actually present in the buffer.
+            let mut out = Vec::new();
             for _ in 0..n {
                 let t = T::try_from(self.clone())?;
                 if self.remaining() < t.wire_size() {
@@ -171,6 +174,9 @@ pub mod xdr {
                 out.push(t);
             }
 
+            if self.remaining() < pad_length(sum) {
+                return Err(Error::InvalidLength);
+            }
             self.advance(pad_length(sum));
 
             Ok(out)
-- 
2.43.0


From 91122189c487aae215ffaf746cc1b493b7582cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 03/17] fix: count the length prefix of counted opaque fields,
 and none for fixed opaque typedefs

---
 src/impls/wire_size.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 3395dde..4aea5c7 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::AstType, Ast, BasicType};
+use crate::ast::{indexes::AstType, ArrayType, Ast, BasicType};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -22,6 +22,11 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                                 r#" pad_length(self.{}.wire_size()) +"#,
                                 SafeName(&f.field_name)
                             )?;
+
+                            // And a length prefix, unless the length is fixed
+                            if let ArrayType::VariableSize(..) = f.field_value {
+                                writeln!(w, "4 +")?;
+                            }
                         }
                     }
 
@@ -90,9 +95,14 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "self.0.wire_size()")?;
 
                         // If the target is opaque, it needs padding, and a
-                        // length prefix adding.
+                        // length prefix adding unless the length is fixed.
                         if let BasicType::Opaque = v.target {
-                            writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?;
+                            match v.alias {
+                                ArrayType::FixedSize(..) => {
+                                    writeln!(w, "+ pad_length(self.0.wire_size())")?
+                                }
+                                _ => writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?,
+                            }
                         }
 
                         Ok(())
-- 
2.43.0


From 6b3fcac0ddf3d1626942f7b9d116d332ddcd01a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:27 +0000
Subject: [PATCH 04/17] fix: keep and enforce the maximum length of opaque and
 string typedefs

---
 src/ast/typedef.rs | 6 +++++-
 src/impls/from.rs  | 8 +++++++-
 src/impls/types.rs | 6 ++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ast/typedef.rs b/src/ast/typedef.rs
index 1ca7ad8..002f94d 100644
--- a/src/ast/typedef.rs
+++ b/src/ast/typedef.rs
@@ -28,7 +28,11 @@ impl Typedef {
                 // Typedefs to opaque types include a variable array identifier so the
                 // caller knows to read the length prefix bytes. This is already handled
                 // by the opaque reader however, so map this to a "no array" wrapper.
-                Node::ArrayVariable(_) if target.is_opaque() => ArrayType::None(alias),
+                //
+                // A declared maximum length must be kept for the reader to enforce.
+                Node::ArrayVariable(s) if target.is_opaque() && s.trim().is_empty() => {
+                    ArrayType::None(alias)
+                }
 
                 Node::ArrayVariable(s) => ArrayType::VariableSize(
                     alias,
diff --git a/src/impls/from.rs b/src/impls/from.rs
index d3194ef..456f20b 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -326,7 +326,13 @@ where
             .map(|s| format!("Some({})", s))
             .unwrap_or_else(|| "None".to_string());
 
-        match t {
+        // If requested, resolve a typedef to the target type.
+        let field = match ast.types().typedef_target(t.as_str()) {
+            Some(typedef) if !resolve_typedefs.use_alias() => &typedef.target,
+            _ => t,
+        };
+
+        match field {
             BasicType::Opaque => write!(w, "v.read_variable_bytes({})?", size)?,
             BasicType::String => write!(w, "v.read_string({})?", size)?,
             _ => write!(w, "v.read_variable_array::<{}>({})?", type_str, size)?,
diff --git a/src/impls/types.rs b/src/impls/types.rs
index 974c385..bc79c68 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -140,6 +140,12 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                     continue;
                 }
 
+                // Likewise a string already has a variable length.
+                if let (BasicType::String, ArrayType::VariableSize(..)) = (&v.target, &v.alias) {
+                    writeln!(w, "(pub {});", v.target)?;
+                    continue;
+                }
+
                 if ast.generics().contains(v.target.as_str()) {
                     write!(w, " (pub ")?;
                     target.write_with_bounds(w, Some(&["T"]))?;
-- 
2.43.0


From f3308972493bfd609d93d200ae90b1840f48ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 05/17] fix: emit union default arms that carry data with their
 payload type

---
 src/impls/from.rs      | 2 +-
 src/impls/types.rs     | 6 +-----
 src/impls/wire_size.rs | 4 ----
 3 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 456f20b..779ede1 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -176,7 +176,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             template,
                             &d.field_value,
                             ast,
-                            TypeResolve::UseTarget,
+                            TypeResolve::UseAlias,
                             try_from,
                         )?;
                         writeln!(w, "),")?;
diff --git a/src/impls/types.rs b/src/impls/types.rs
index bc79c68..47605df 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -62,7 +62,7 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                 }
 
                 writeln!(w, " {{")?;
-                for case in v.cases.iter() {
+                for case in v.cases.iter().chain(v.default.iter()) {
                     // A single case statement may have many case values tied to it
                     // if fallthrough values are used:
                     //
@@ -91,10 +91,6 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                     writeln!(w, "{},", NonDigitName(SafeName(c.as_str())))?;
                 }
 
-                if v.default.is_some() {
-                    writeln!(w, "default,")?;
-                }
-
                 writeln!(w, "}}")?;
             }
             AstType::Enum(v) => {
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 4aea5c7..9c744a0 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -69,10 +69,6 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "Self::{} => 0,", NonDigitName(SafeName(c.as_str())))?;
                     }
 
-                    if v.default.is_some() {
-                        writeln!(w, "Self::default => 0,")?;
-                    }
-
                     writeln!(w, "}}")?;
                     Ok(())
                 })?;
-- 
2.43.0


From 4e823485bb0a5e3797361290d814facecf27364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 06/17] fix: match void TRUE/FALSE labels by value and emit a
 void default last

---
 src/impls/from.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 779ede1..34d8038 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -137,7 +137,13 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
 
                     // There may also be several "void" cases
                     let mut did_void_default = false;
-                    for c in v.void_cases.iter() {
+                    //
+                    // The default matches anything, so it must come last wherever
+                    // it was declared.
+                    let is_default = |c: &&String| c.as_str() == "default";
+                    let void_values = v.void_cases.iter().filter(|c| !is_default(c));
+                    let void_default = v.void_cases.iter().filter(is_default);
+                    for c in void_values.chain(void_default) {
                         let variant = c.as_str();
                         let matcher = match variant {
                             "default" => {
@@ -157,7 +163,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                         enum_name, variant, v.switch.var_type,
                                     ),
                                 })
-                                .unwrap_or_else(|| other.to_string()),
+                                .unwrap_or_else(|| SafeName(other).to_string()),
                         };
                         writeln!(
                             w,
-- 
2.43.0


From a89b6e555c95777a966b407fb4959c37f38ef101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 07/17] fix: resolve union discriminants through typedefs, with
 their actual size and literal enum values

---
 src/ast/indexes/type_index.rs | 16 ++++++++++++++-
 src/impls/from.rs             | 38 +++++++++++++++++++++++++++--------
 src/impls/wire_size.rs        |  8 +++++++-
 3 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/ast/indexes/type_index.rs b/src/ast/indexes/type_index.rs
index 80047e1..9ef4553 100644
--- a/src/ast/indexes/type_index.rs
+++ b/src/ast/indexes/type_index.rs
@@ -1,4 +1,4 @@
-use crate::ast::{Enum, Node, Struct, Typedef, Union};
+use crate::ast::{ArrayType, BasicType, Enum, Node, Struct, Typedef, Union};
 use std::collections::BTreeMap;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -72,6 +72,20 @@ impl TypeIndex {
         }
     }
 
+    /// Follows the typedef chain starting at `t`, returning the first type that
+    /// is not an alias of another type.
+    pub fn resolve_alias<'a>(&'a self, t: &'a BasicType) -> &'a BasicType {
+        let mut t = t;
+        // A chain longer than the number of types is a cycle.
+        for _ in 0..self.0.len() {
+            match self.typedef_target(t.as_str()) {
+                Some(v) if matches!(v.alias, ArrayType::None(_)) => t = &v.target,
+                _ => break,
+            }
+        }
+        t
+    }
+
     /// Iterates over the types in the type index.
     pub fn iter(&self) -> impl std::iter::Iterator<Item = &AstType> {
         self.0.values()
diff --git a/src/impls/from.rs b/src/impls/from.rs
index 34d8038..e4a379a 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType};
+use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType, VariantValue};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -75,10 +75,14 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
 
             AstType::Union(v) => {
                 print_try_from(&mut w, template, v.name.as_str(), ast, |w, try_from| {
+                    // The discriminant is matched on as the type underneath any
+                    // typedefs.
+                    let switch_type = ast.types().resolve_alias(&v.switch.var_type);
+
                     write!(w, "let {} = ", SafeName(&v.switch.var_name))?;
                     print_decode_basic_type(
                         w,
-                        &v.switch.var_type,
+                        switch_type,
                         ast,
                         TypeResolve::UseTarget,
                         try_from,
@@ -106,16 +110,18 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                 .constants()
                                 .get(c_value.as_str())
                                 .map(|c| match *c {
-                                    ConstantType::ConstValue(ref v) => SafeName(v).to_string(),
+                                    ConstantType::ConstValue(ref v) => {
+                                        literal_matcher(ast, switch_type, v)
+                                    }
                                     ConstantType::EnumValue {
                                         ref enum_name,
                                         ref variant,
                                     } => format!(
                                         "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
+                                        enum_name, variant, switch_type,
                                     ),
                                 })
-                                .unwrap_or_else(|| SafeName(c_value).to_string());
+                                .unwrap_or_else(|| literal_matcher(ast, switch_type, c_value));
 
                             write!(
                                 w,
@@ -154,16 +160,18 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                 .constants()
                                 .get(other)
                                 .map(|c| match *c {
-                                    ConstantType::ConstValue(ref v) => SafeName(v).to_string(),
+                                    ConstantType::ConstValue(ref v) => {
+                                        literal_matcher(ast, switch_type, v)
+                                    }
                                     ConstantType::EnumValue {
                                         ref enum_name,
                                         ref variant,
                                     } => format!(
                                         "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
+                                        enum_name, variant, switch_type,
                                     ),
                                 })
-                                .unwrap_or_else(|| SafeName(other).to_string()),
+                                .unwrap_or_else(|| literal_matcher(ast, switch_type, other)),
                         };
                         writeln!(
                             w,
@@ -232,6 +240,20 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
     Ok(())
 }
 
+/// Returns the match pattern for a case value that is not a declared constant.
+///
+/// The literal value of an enum discriminant selects the enum member declared
+/// with that value.
+fn literal_matcher(ast: &Ast, switch_type: &BasicType, value: &str) -> String {
+    if let Some(AstType::Enum(e)) = ast.types().get(switch_type.as_str()) {
+        let value = VariantValue::from(value);
+        if let Some(m) = e.variants.iter().find(|m| m.value == value) {
+            return format!("c if c == {}::{} as {}", e.name, m.name, e.name);
+        }
+    }
+    SafeName(value).to_string()
+}
+
 /// Prints the `impl TryFrom` block around the output of func.
 ///
 /// `func` should write the body of the `try_from` implementation to `w`, using
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 9c744a0..2a66942 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -37,7 +37,13 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
 
             AstType::Union(v) => {
                 print_impl(&mut w, template, v.name(), ast, |w| {
-                    writeln!(w, "4 + match self {{")?;
+                    // The discriminant precedes the value, and may be a hyper.
+                    let switch_size = match ast.types().resolve_alias(&v.switch.var_type) {
+                        BasicType::U64 | BasicType::I64 => 8,
+                        _ => 4,
+                    };
+
+                    writeln!(w, "{} + match self {{", switch_size)?;
                     // Iterate over all the variants of v, including the
                     // default.
                     for case in v.cases.iter().chain(v.default.iter()) {
-- 
2.43.0


From 826d5536b557bcf58e4a68b5bfcf7360bf08eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 08/17] fix: emit no impls for typedefs of a primitive to its
 own name

---
 src/impls/from.rs      | 3 +++
 src/impls/wire_size.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index e4a379a..bf95948 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -215,6 +215,9 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                 })?
             }
 
+            // No typedefs to self, which have no type of their own.
+            AstType::Typedef(v) if v.target == *v.alias.unwrap_array() => continue,
+
             AstType::Typedef(v) => print_try_from(
                 &mut w,
                 template,
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 2a66942..d15cbce 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -87,6 +87,9 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                 })?;
             }
 
+            // No typedefs to self, which have no type of their own.
+            AstType::Typedef(v) if v.target == *v.alias.unwrap_array() => continue,
+
             AstType::Typedef(v) => {
                 print_impl(
                     &mut w,
-- 
2.43.0


From f757ac6a5abfd8b1f2e6068e5023e3c34106078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 09/17] fix: accept hex constants and constants naming
 constants as array sizes

---
 src/ast/indexes/constants.rs | 20 ++++++++++++++++++++
 src/impls/from.rs            | 16 ++--------------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/ast/indexes/constants.rs b/src/ast/indexes/constants.rs
index 647953d..8185545 100644
--- a/src/ast/indexes/constants.rs
+++ b/src/ast/indexes/constants.rs
@@ -71,6 +71,26 @@ impl ConstantIndex {
         self.0.get(name.as_ref())
     }
 
+    /// Returns the numeric value of the constant `name`, which may be declared in
+    /// decimal, in hex, or as another constant.
+    pub fn value<T: AsRef<str>>(&self, name: T) -> crate::Result<u32> {
+        let mut value = name.as_ref();
+        // A chain longer than the number of constants is a cycle.
+        for _ in 0..=self.0.len() {
+            value = match self.get(value) {
+                Some(ConstantType::ConstValue(v)) => v,
+                Some(v) => return Err(format!("{} is not a constant", v).into()),
+                None => break,
+            }
+        }
+        match value.strip_prefix("0x") {
+            Some(hex) => Ok(u32::from_str_radix(hex, 16)?),
+            None => value
+                .parse()
+                .map_err(|_| format!("unknown constant {}", value).into()),
+        }
+    }
+
     /// Iterates over the types in the constant index.
     pub fn iter(&self) -> impl std::iter::Iterator<Item = (&String, &ConstantType)> {
         self.0.iter()
diff --git a/src/impls/from.rs b/src/impls/from.rs
index bf95948..79ebe7b 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -380,26 +380,14 @@ where
         ArrayType::FixedSize(t, ArraySize::Known(size)) => print_fixed(w, t, *size)?,
         ArrayType::FixedSize(t, ArraySize::Constant(size)) => {
             // Try and resolve the constant value
-            let size = ast
-                .constants()
-                .get(size.as_str())
-                .map(|v| v.to_string())
-                .ok_or(format!("unknown constant {}", size))?;
-
-            print_fixed(w, t, size.parse()?)?
+            print_fixed(w, t, ast.constants().value(size)?)?
         }
         ArrayType::VariableSize(t, Some(ArraySize::Known(size))) => {
             print_variable(w, t, Some(*size))?
         }
         ArrayType::VariableSize(t, Some(ArraySize::Constant(size))) => {
             // Try and resolve the constant value
-            let size = ast
-                .constants()
-                .get(size.as_str())
-                .map(|v| v.to_string())
-                .ok_or("unknown constant")?;
-
-            print_variable(w, t, Some(size.parse()?))?;
+            print_variable(w, t, Some(ast.constants().value(size)?))?;
         }
         ArrayType::VariableSize(t, None) => {
             print_variable(w, t, None)?;
-- 
2.43.0


From abf36b91b5cb57d11f3c9471fd474123d3d91a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 10/17] fix: accept any whitespace and comments between
 unsigned and int/hyper

---
 src/ast/mod.rs | 10 +++++++++-
 src/xdr.pest   |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 9cd4c38..66c647d 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -114,7 +114,15 @@ fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
         Rule::union_void => Node::UnionVoid,
         Rule::option => Node::Option(collect_values(ast)),
         Rule::basic_type => {
-            Node::Type(BasicType::try_from(ast.as_str()).expect("unrecognised type"))
+            // Any amount of whitespace and comments may appear between the two
+            // words of an unsigned type.
+            let words = ast.as_str().trim();
+            let name = match words.strip_prefix("unsigned") {
+                Some(v) if v.ends_with("int") => "unsigned int",
+                Some(v) if v.ends_with("hyper") => "unsigned hyper",
+                _ => words,
+            };
+            Node::Type(BasicType::try_from(name).expect("unrecognised type"))
         }
         Rule::EOI => Node::EOF,
         e => panic!("unknown token type {:?}", e),
diff --git a/src/xdr.pest b/src/xdr.pest
index a7690a6..9a53e62 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -2,7 +2,7 @@ ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
 ident_value = { ASCII_DIGIT+ }
 basic_type = @{ 
-	("unsigned" ~ WHITESPACE+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
+	("unsigned" ~ WHITESPACE+ ~ (COMMENT | WHITESPACE)*)? ~ ("int" | "hyper") ~ WHITESPACE+ |
 	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
 }
 
-- 
2.43.0


From 2743927108ba412653d6b1b739cacf0f34db14f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 11/17] fix: return errors instead of panicking on unsupported
 declarations

---
 src/ast/enumeration.rs       | 37 ++++++++++++++++-----------
 src/ast/indexes/constants.rs |  8 +++---
 src/ast/mod.rs               | 49 ++++++++++++++++++++----------------
 src/ast/structure.rs         | 18 ++++++-------
 src/ast/union.rs             | 34 ++++++++++++-------------
 src/impls/from.rs            |  2 +-
 6 files changed, 82 insertions(+), 66 deletions(-)

diff --git a/src/ast/enumeration.rs b/src/ast/enumeration.rs
index a6d6b98..02b08f0 100644
--- a/src/ast/enumeration.rs
+++ b/src/ast/enumeration.rs
@@ -7,18 +7,18 @@ pub struct Enum {
 }
 
 impl<'a> Enum {
-    pub(crate) fn new(vs: Vec<Node<'a>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'a>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut vars = Vec::new();
         for v in vs.into_iter().skip(1) {
-            vars.push(Variant::new(v))
+            vars.push(Variant::new(v)?)
         }
 
-        Self {
+        Ok(Self {
             name,
             variants: vars,
-        }
+        })
     }
 }
 
@@ -49,31 +49,40 @@ where
 {
     fn from(v: T) -> Self {
         let v = v.as_ref();
-        if v.starts_with("0x") {
+        let number = if v.starts_with("0x") {
             let clean = v.trim_start_matches("0x");
-            return Self::Numeric(i32::from_str_radix(clean, 16).unwrap());
-        }
+            i32::from_str_radix(clean, 16)
+        } else {
+            v.parse::<i32>()
+        };
 
-        v.parse::<i32>()
+        number
             .map(Self::Numeric)
             .unwrap_or_else(|_| Self::String(v.to_string()))
     }
 }
 
 impl<'a> Variant {
-    fn new(v: Node<'a>) -> Self {
+    fn new(v: Node<'a>) -> Result<Self> {
         let f = match v {
             Node::EnumVariant(f) => f,
-            e => panic!("not a struct field: {:?}", e),
+            e => return Err(format!("not an enum variant: {:?}", e).into()),
         };
 
         if f.len() != 2 {
-            panic!("unexpected number of tokens in enum")
+            return Err("unexpected number of tokens in enum".into());
         }
 
-        Self {
-            name: f[0].ident_str().to_string(),
-            value: f[1].ident_str().into(),
+        let value = VariantValue::from(f[1].ident_str());
+        match value {
+            // A number is only left as a string when it is not a valid i32.
+            VariantValue::String(v) if v.starts_with(|c: char| c.is_ascii_digit()) => {
+                Err(format!("invalid enum value {}", v).into())
+            }
+            value => Ok(Self {
+                name: f[0].ident_str().to_string(),
+                value,
+            }),
         }
     }
 }
diff --git a/src/ast/indexes/constants.rs b/src/ast/indexes/constants.rs
index 8185545..133e5d5 100644
--- a/src/ast/indexes/constants.rs
+++ b/src/ast/indexes/constants.rs
@@ -21,7 +21,7 @@ pub struct ConstantIndex(pub BTreeMap<String, ConstantType>);
 
 impl ConstantIndex {
     /// Build an index of all consts / enums for use in the union switches.
-    pub(crate) fn new<'a>(ast: &'a Node<'a>) -> ConstantIndex {
+    pub(crate) fn new<'a>(ast: &'a Node<'a>) -> crate::Result<ConstantIndex> {
         let mut case_values = BTreeMap::new();
         if let Node::Root(r) = ast {
             for item in r.iter() {
@@ -35,7 +35,7 @@ impl ConstantIndex {
                             )
                             .is_some()
                         {
-                            panic!("duplicate case keys {}", vs[0].ident_str());
+                            return Err(format!("duplicate case keys {}", vs[0].ident_str()).into());
                         }
                     }
                     Node::Enum(e) => {
@@ -54,7 +54,7 @@ impl ConstantIndex {
                                 )
                                 .is_some()
                             {
-                                panic!("duplicate case keys {}", v.name.as_str());
+                                return Err(format!("duplicate case keys {}", v.name).into());
                             }
                         }
                     }
@@ -63,7 +63,7 @@ impl ConstantIndex {
             }
         }
 
-        ConstantIndex(case_values)
+        Ok(ConstantIndex(case_values))
     }
 
     /// Returns the constant value as a string for `name`.
diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 66c647d..bdc0685 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -51,11 +51,11 @@ impl Ast {
         // Tokenise the input
         let mut root = XDRParser::parse(Rule::item, xdr)?;
         // Parse into an AST
-        let ast = walk(root.next().ok_or("unable to tokenise input")?);
+        let ast = try_walk(root.next().ok_or("unable to tokenise input")?)?;
 
         // Build some helpful indexes to answer questions about types when
         // generating the Rust code.
-        let constant_index = ConstantIndex::new(&ast);
+        let constant_index = ConstantIndex::new(&ast)?;
         let generic_index = GenericIndex::new(&ast);
         let type_index = TypeIndex::new(&ast);
 
@@ -84,15 +84,17 @@ impl Ast {
 //
 // These higher-level types will then be extracted and added to the type index
 // later.
-fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
-    fn collect_values(ast: Pair<'_, Rule>) -> Vec<Node<'_>> {
-        ast.into_inner().map(walk).collect()
+//
+// Declarations that the grammar accepts but that are not supported are errors.
+fn try_walk(ast: Pair<'_, Rule>) -> Result<Node<'_>> {
+    fn collect_values(ast: Pair<'_, Rule>) -> Result<Vec<Node<'_>>> {
+        ast.into_inner().map(try_walk).collect()
     }
 
-    match ast.as_rule() {
-        Rule::item => Node::Root(collect_values(ast)),
-        Rule::typedef => Node::Typedef(Typedef::new(collect_values(ast))),
-        Rule::constant => Node::Constant(collect_values(ast)),
+    Ok(match ast.as_rule() {
+        Rule::item => Node::Root(collect_values(ast)?),
+        Rule::typedef => Node::Typedef(Typedef::new(collect_values(ast)?)),
+        Rule::constant => Node::Constant(collect_values(ast)?),
         Rule::ident | Rule::ident_const | Rule::ident_value => {
             if let Ok(t) = BasicType::try_from(ast.as_str()) {
                 Node::Type(t)
@@ -100,19 +102,19 @@ fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
                 Node::Ident(ast.as_str())
             }
         }
-        Rule::enum_type => Node::Enum(Enum::new(collect_values(ast))),
-        Rule::enum_variant => Node::EnumVariant(collect_values(ast)),
-        Rule::array => Node::Array(collect_values(ast)),
+        Rule::enum_type => Node::Enum(Enum::new(collect_values(ast)?)?),
+        Rule::enum_variant => Node::EnumVariant(collect_values(ast)?),
+        Rule::array => Node::Array(collect_values(ast)?),
         Rule::array_variable => Node::ArrayVariable(ast.into_inner().as_str()),
         Rule::array_fixed => Node::ArrayFixed(ast.into_inner().as_str()),
-        Rule::struct_type => Node::Struct(Struct::new(collect_values(ast))),
-        Rule::struct_data_field => Node::StructDataField(collect_values(ast)),
-        Rule::union_data_field => Node::UnionDataField(collect_values(ast)),
-        Rule::union => Node::Union(Union::new(collect_values(ast))),
-        Rule::union_case => Node::UnionCase(collect_values(ast)),
-        Rule::union_default => Node::UnionDefault(collect_values(ast)),
+        Rule::struct_type => Node::Struct(Struct::new(collect_values(ast)?)?),
+        Rule::struct_data_field => Node::StructDataField(collect_values(ast)?),
+        Rule::union_data_field => Node::UnionDataField(collect_values(ast)?),
+        Rule::union => Node::Union(Union::new(collect_values(ast)?)?),
+        Rule::union_case => Node::UnionCase(collect_values(ast)?),
+        Rule::union_default => Node::UnionDefault(collect_values(ast)?),
         Rule::union_void => Node::UnionVoid,
-        Rule::option => Node::Option(collect_values(ast)),
+        Rule::option => Node::Option(collect_values(ast)?),
         Rule::basic_type => {
             // Any amount of whitespace and comments may appear between the two
             // words of an unsigned type.
@@ -125,6 +127,11 @@ fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
             Node::Type(BasicType::try_from(name).expect("unrecognised type"))
         }
         Rule::EOI => Node::EOF,
-        e => panic!("unknown token type {:?}", e),
-    }
+        e => return Err(format!("unknown token type {:?}", e).into()),
+    })
+}
+
+#[cfg(test)]
+fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
+    try_walk(ast).unwrap()
 }
diff --git a/src/ast/structure.rs b/src/ast/structure.rs
index b4b94a0..43f7589 100644
--- a/src/ast/structure.rs
+++ b/src/ast/structure.rs
@@ -7,15 +7,15 @@ pub struct Struct {
 }
 
 impl Struct {
-    pub(crate) fn new(vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'_>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut fields = Vec::new();
         for v in vs.into_iter().skip(1) {
-            fields.push(StructField::new(v));
+            fields.push(StructField::new(v)?);
         }
 
-        Struct { name, fields }
+        Ok(Struct { name, fields })
     }
 
     pub fn name(&self) -> &str {
@@ -41,13 +41,13 @@ pub struct StructField {
 }
 
 impl StructField {
-    pub(crate) fn new(v: Node<'_>) -> Self {
+    pub(crate) fn new(v: Node<'_>) -> Result<Self> {
         let f = match v {
             Node::StructDataField(f) => f,
-            e => panic!("not a struct field: {:?}", e),
+            e => return Err(format!("not a struct field: {:?}", e).into()),
         };
 
-        match f.as_slice() {
+        Ok(match f.as_slice() {
             [Node::Type(rhs), Node::Type(BasicType::Ident(lhs))] => Self {
                 field_name: lhs.to_string(),
                 field_value: ArrayType::None(rhs.to_owned()),
@@ -72,7 +72,7 @@ impl StructField {
             [Node::Type(rhs), Node::Option(opt)] => {
                 let lhs = match &opt[0] {
                     Node::Type(BasicType::Ident(lhs)) => lhs,
-                    _ => panic!("unexpected struct field option layout"),
+                    _ => return Err("unexpected struct field option layout".into()),
                 };
 
                 Self {
@@ -81,8 +81,8 @@ impl StructField {
                     is_optional: true,
                 }
             }
-            _ => panic!("invalid number of struct field tokens"),
-        }
+            _ => return Err("invalid number of struct field tokens".into()),
+        })
     }
 
     pub fn contains_opaque(&self) -> bool {
diff --git a/src/ast/union.rs b/src/ast/union.rs
index 7948022..0f51804 100644
--- a/src/ast/union.rs
+++ b/src/ast/union.rs
@@ -16,7 +16,7 @@ pub struct Union {
 }
 
 impl Union {
-    pub(crate) fn new(vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'_>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut cases = Vec::new();
@@ -35,13 +35,13 @@ impl Union {
         for v in vs.into_iter().skip(3) {
             let mut is_default_case = false;
             let stmt = match v {
-                Node::UnionCase(nodes) => CaseStmt::parse(case_values, nodes),
+                Node::UnionCase(nodes) => CaseStmt::parse(case_values, nodes)?,
                 Node::UnionDefault(nodes) => {
                     is_default_case = true;
                     case_values.push("default".to_string());
-                    CaseStmt::parse(case_values, nodes)
+                    CaseStmt::parse(case_values, nodes)?
                 }
-                v => panic!("unexpected token type for union {:?}", v),
+                v => return Err(format!("unexpected token type for union {:?}", v).into()),
             };
 
             match stmt {
@@ -59,13 +59,13 @@ impl Union {
             case_values = Vec::new()
         }
 
-        Union {
+        Ok(Union {
             name,
             cases,
             default,
             void_cases,
             switch,
-        }
+        })
     }
 
     pub fn name(&self) -> &str {
@@ -102,14 +102,14 @@ pub struct UnionCase {
 }
 
 impl UnionCase {
-    pub(crate) fn new(case_values: Vec<String>, field: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(case_values: Vec<String>, field: Vec<Node<'_>>) -> Result<Self> {
         match field.as_slice() {
-            [Node::Type(t), Node::Type(BasicType::Ident(l))] => Self {
+            [Node::Type(t), Node::Type(BasicType::Ident(l))] => Ok(Self {
                 case_values,
                 field_name: l.to_string(),
                 field_value: ArrayType::None(t.to_owned()),
-            },
-            _ => panic!("invalid number of union field tokens"),
+            }),
+            _ => Err("invalid number of union field tokens".into()),
         }
     }
 
@@ -130,29 +130,29 @@ enum CaseStmt {
 }
 
 impl CaseStmt {
-    fn parse(mut case_values: Vec<String>, mut nodes: Vec<Node<'_>>) -> Self {
+    fn parse(mut case_values: Vec<String>, mut nodes: Vec<Node<'_>>) -> Result<Self> {
         match nodes.remove(0) {
             Node::Type(t) => case_values.push(t.as_str().to_string()),
             Node::UnionVoid => {
                 // No ident, this is a default case
-                return Self::Void(case_values);
+                return Ok(Self::Void(case_values));
             }
             Node::UnionDataField(nodes) => {
                 // No ident, this is a default case
-                return Self::Defined(UnionCase::new(case_values, nodes));
+                return Ok(Self::Defined(UnionCase::new(case_values, nodes)?));
             }
             _ => unreachable!(),
         };
 
         if nodes.is_empty() {
-            return Self::Fallthrough(case_values);
+            return Ok(Self::Fallthrough(case_values));
         }
 
-        match nodes.remove(0) {
-            Node::UnionDataField(nodes) => Self::Defined(UnionCase::new(case_values, nodes)),
+        Ok(match nodes.remove(0) {
+            Node::UnionDataField(nodes) => Self::Defined(UnionCase::new(case_values, nodes)?),
             Node::UnionVoid => Self::Void(case_values),
             _ => unreachable!(),
-        }
+        })
     }
 }
 
diff --git a/src/impls/from.rs b/src/impls/from.rs
index 79ebe7b..1715ddc 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -323,7 +323,7 @@ where
 
         match field {
             BasicType::Opaque => write!(w, "v.read_bytes({})?", size)?,
-            BasicType::String => unreachable!("unexpected fixed length string"),
+            BasicType::String => return Err("unexpected fixed length string".into()),
             _ => {
                 writeln!(w, "[")?;
                 for _i in 0..size {
-- 
2.43.0


From dd60b51a2025feb1e59ef3df50de6b3a4b2254ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:21 +0000
Subject: [PATCH 12/17] fix: escape the words Rust reserves for future use

---
 src/ast/basic_type.rs | 4 +++-
 src/impls/mod.rs      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast/basic_type.rs b/src/ast/basic_type.rs
index 4adb135..72ff861 100644
--- a/src/ast/basic_type.rs
+++ b/src/ast/basic_type.rs
@@ -46,7 +46,9 @@ impl<'a> BasicType {
             | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in"
             | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return"
             | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "type"
-            | "union" | "unsafe" | "use" | "where" | "while" => format!("{}_v", name),
+            | "union" | "unsafe" | "use" | "where" | "while" | "abstract" | "become" | "box"
+            | "do" | "final" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+            | "virtual" | "yield" => format!("{}_v", name),
             _ => name,
         }
     }
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6a3eedb..6fe5300 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -23,7 +23,9 @@ where
             | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in"
             | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return"
             | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "type"
-            | "union" | "unsafe" | "use" | "where" | "while" => write!(f, "{}_v", self.0.as_ref()),
+            | "union" | "unsafe" | "use" | "where" | "while" | "abstract" | "become" | "box"
+            | "do" | "final" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+            | "virtual" | "yield" => write!(f, "{}_v", self.0.as_ref()),
             "TRUE" | "FALSE" => write!(f, "{}", self.0.as_ref().to_lowercase()),
             _ => write!(f, "{}", self.0.as_ref()),
         }
-- 
2.43.0


From cb77ff4784e48914441ba473f5d9563cae94ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 13/17] fix: print exactly the generated code, and accept any
 path the OS does

---
 src/main.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index db6a188..45863d9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,15 +3,18 @@ use fastxdr::Result;
 use std::env;
 
 fn main() -> Result<()> {
-    if env::args().len() < 2 {
-        println!("usage: {} ./path/to/spec.x", env::args().next().unwrap());
+    if env::args_os().len() < 2 {
+        println!(
+            "usage: {} ./path/to/spec.x",
+            env::args_os().next().unwrap_or_default().to_string_lossy()
+        );
         std::process::exit(1);
     }
 
-    for e in env::args().skip(1) {
+    for e in env::args_os().skip(1) {
         let xdr = std::fs::read_to_string(e)?;
         let code = Generator::default().generate(&xdr)?;
-        println!("{}", code);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From a6e8ccdbad8e977296b94b8b6d89d96d1bbe4836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:38 +0000
Subject: [PATCH 14/17] fix: do not let a union discriminant named v shadow the
 buffer

---
 src/impls/from.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 1715ddc..f64cf32 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -79,7 +79,13 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                     // typedefs.
                     let switch_type = ast.types().resolve_alias(&v.switch.var_type);
 
-                    write!(w, "let {} = ", SafeName(&v.switch.var_name))?;
+                    // The discriminant must not shadow the buffer, which is "v".
+                    let switch_var = match v.switch.var_name.as_str() {
+                        "v" => "v_v".to_string(),
+                        name => SafeName(name).to_string(),
+                    };
+
+                    write!(w, "let {} = ", switch_var)?;
                     print_decode_basic_type(
                         w,
                         switch_type,
@@ -89,7 +95,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                     )?;
                     writeln!(w, "?;")?;
 
-                    writeln!(w, "Ok(match {} {{", SafeName(&v.switch.var_name))?;
+                    writeln!(w, "Ok(match {} {{", switch_var)?;
                     for c in v.cases.iter() {
                         // A single case statement may have many case values tied to it
                         // if fallthrough values are used:
-- 
2.43.0


From 81c1cad062da0178ed9f04948fefddd477ef37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 15/17] fix: do not require consumers of the generated code to
 depend on thiserror

---
 src/header.rs | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index a47682a..093bb36 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -10,29 +10,47 @@ pub mod xdr {
     use std::mem::size_of;
     
     use fastxdr::bytes::{Buf, Bytes};
-    use fastxdr::thiserror::Error;
 
-    #[derive(Debug, Error, PartialEq)]
+    #[derive(Debug, PartialEq)]
     pub enum Error {
-        #[error("invalid message length")]
         InvalidLength,
-
-        #[error("non-utf8 characters in string: {0}")]
-        NonUtf8String(#[from] std::string::FromUtf8Error),
-
-        #[error("invalid boolean value")]
+        NonUtf8String(std::string::FromUtf8Error),
         InvalidBoolean,
-
-        #[error("unknown enum variant {0}")]
         UnknownVariant(i32),
-
-        #[error("unknown option variant {0}")]
         UnknownOptionVariant(u32),
-
-        #[error("{0}")]
         Unknown(String),
     }
 
+    // Written out as the derive of thiserror expands to `::thiserror` paths, which
+    // do not resolve in a crate that depends on fastxdr alone.
+    impl std::fmt::Display for Error {
+        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+            match self {
+                Error::InvalidLength => write!(f, "invalid message length"),
+                Error::NonUtf8String(e) => write!(f, "non-utf8 characters in string: {}", e),
+                Error::InvalidBoolean => write!(f, "invalid boolean value"),
+                Error::UnknownVariant(v) => write!(f, "unknown enum variant {}", v),
+                Error::UnknownOptionVariant(v) => write!(f, "unknown option variant {}", v),
+                Error::Unknown(s) => write!(f, "{}", s),
+            }
+        }
+    }
+
+    impl std::error::Error for Error {
+        fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+            match self {
+                Error::NonUtf8String(e) => Some(e),
+                _ => None,
+            }
+        }
+    }
+
+    impl From<std::string::FromUtf8Error> for Error {
+        fn from(e: std::string::FromUtf8Error) -> Self {
+            Error::NonUtf8String(e)
+        }
+    }
+
     pub trait DeserialiserExt {
         type Sliced: WireSize + IntoIterator<Item = u8>;
         type TryFrom;
-- 
2.43.0


From f2bc80b262ae4c2176c2c8c3b279e6e0af729a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 16/17] fix: match case labels naming a constant alias by its
 number

---
 src/impls/from.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index f64cf32..a41fa10 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -249,11 +249,20 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
     Ok(())
 }
 
-/// Returns the match pattern for a case value that is not a declared constant.
+/// Returns the match pattern for a case value, or the value of the constant it names.
 ///
 /// The literal value of an enum discriminant selects the enum member declared
 /// with that value.
 fn literal_matcher(ast: &Ast, switch_type: &BasicType, value: &str) -> String {
+    // A constant declared as another constant is matched by its number, as the
+    // Rust const may differ in type from the discriminant.
+    let resolved = match ast.constants().get(value) {
+        Some(ConstantType::ConstValue(_)) => ast.constants().value(value).ok(),
+        _ => None,
+    };
+    let resolved = resolved.map(|v| v.to_string());
+    let value = resolved.as_deref().unwrap_or(value);
+
     if let Some(AstType::Enum(e)) = ast.types().get(switch_type.as_str()) {
         let value = VariantValue::from(value);
         if let Some(m) = e.variants.iter().find(|m| m.value == value) {
-- 
2.43.0


From de4f9597474e3dd378e6a8c9b385bdb82a5831d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 17/17] fix: keep whitespace and comments after a number out of
 the number

---
 src/xdr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xdr.pest b/src/xdr.pest
index 9a53e62..ecf6cec 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -1,6 +1,6 @@
 ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
-ident_value = { ASCII_DIGIT+ }
+ident_value = @{ ASCII_DIGIT+ }
 basic_type = @{ 
 	("unsigned" ~ WHITESPACE+ ~ (COMMENT | WHITESPACE)*)? ~ ("int" | "hyper") ~ WHITESPACE+ |
 	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
-- 
2.43.0

