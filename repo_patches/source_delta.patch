From d3350589f106a9b085c9fb40f960db3bd47a769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 01/24] fix: parse bundle fields named flip, reject empty field
 names

A field named `flip` was printed as `flip : T` but the parser took the name
for the keyword and then accepted an empty field name, yielding a flipped
field without a name.
---
 src/types/parsers.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index 4921ae1..29a3edf 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -5,8 +5,8 @@
 use std::sync::Arc;
 
 use nom::branch::alt;
-use nom::bytes::complete::take_while;
-use nom::combinator::{map, opt, value};
+use nom::bytes::complete::take_while1;
+use nom::combinator::{map, opt, success, value};
 use nom::error::context;
 use nom::multi::{fold_many0, separated_list0};
 use nom::sequence::{preceded, tuple};
@@ -44,10 +44,15 @@ pub fn bitwidth(input: &str) -> IResult<super::BitWidth> {
 pub fn r#type(input: &str) -> IResult<super::Type> {
     use super::Type as T;
 
+    // A field may itself be named `flip`. Hence, we only know that we parsed
+    // the keyword once we also encounter the field's name and the colon.
+    let field_head = alt((
+        tuple((value(super::Orientation::Flipped, kw("flip")), spaced(field_name), spaced(op(":")))),
+        tuple((success(Default::default()), spaced(field_name), spaced(op(":")))),
+    ));
     let field = map(
-        tuple((opt(kw("flip")), spaced(field_name), spaced(op(":")), spaced(r#type))),
-        |(o, n, _, t)| super::BundleField::new(n, t)
-            .with_orientation(o.map(|_| super::Orientation::Flipped).unwrap_or_default())
+        tuple((field_head, spaced(r#type))),
+        |((o, n, _), t)| super::BundleField::new(n, t).with_orientation(o)
     );
 
     let (input, res) = alt((
@@ -70,6 +75,6 @@ pub fn r#type(input: &str) -> IResult<super::Type> {
 ///
 /// The rules for field names are somehow more relaxed than for identifiers.
 pub fn field_name(input: &str) -> IResult<&str> {
-    context("expected field name", take_while(is_identifier_char))(input)
+    context("expected field name", take_while1(is_identifier_char))(input)
 }
 
-- 
2.43.0


From 08821bbea00633f411de447c2f1e9dc0980ad7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 02/24] fix: width of a concatenation is the sum of the operand
 widths

---
 src/expr/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 1ec6fcf..55ce7e7 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -226,7 +226,7 @@ impl<R> types::Typed for Operation<R>
             Self::OrReduce(..)              => Ok(GT::UInt(Some(1))),
             Self::XorReduce(..)             => Ok(GT::UInt(Some(1))),
             Self::Cat(lhs, rhs)             => Ok(
-                GT::UInt(max_width(ground(lhs)?.width(), ground(rhs)?.width())
+                GT::UInt(sum_width(ground(lhs)?.width(), ground(rhs)?.width())
             )),
             Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(high
                 .or(t.width())
-- 
2.43.0


From c54bed2f192c5ce0d9869fb38e16b2ebea8593ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 03/24] fix: result widths of bits, head and tail

---
 src/expr/primitive.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 55ce7e7..9ffd4b0 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -228,11 +228,12 @@ impl<R> types::Typed for Operation<R>
             Self::Cat(lhs, rhs)             => Ok(
                 GT::UInt(sum_width(ground(lhs)?.width(), ground(rhs)?.width())
             )),
-            Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(high
-                .or(t.width())
-                .and_then(|w| w.checked_sub(low.unwrap_or(1)))
-                .map(|w| w + 1)
-            )),
+            Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(match (low, high) {
+                (Some(l), Some(h)) => h.checked_sub(*l).and_then(|w| w.checked_add(1)),
+                (None,    Some(n)) => Some(*n),
+                (Some(n), None)    => t.width().and_then(|w| w.checked_sub(*n)),
+                (None,    None)    => t.width(),
+            })),
             Self::IncPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_add(*bits)),
                 p.and_then(|p| p.checked_add(*bits as SBits))
-- 
2.43.0


From f7a51fea27204371909bcee32a1cca39f4154dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 04/24] fix: operands of bits are the high and then the low bit

---
 src/expr/parsers.rs   | 2 +-
 src/expr/primitive.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index 29981e1..a21f5b3 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -130,7 +130,7 @@ pub fn primitive_op<'i, R: super::Reference + Clone>(
         "cat"           => map(tuple((&sub, comma, &sub)), |(l, _, r)| PO::Cat(l, r))(input)?,
         "bits"          => map(
             tuple((&sub, comma, spaced(decimal), comma, spaced(decimal))),
-            |(e, _, l, _, h)| PO::Bits(e, Some(l), Some(h))
+            |(e, _, h, _, l)| PO::Bits(e, Some(l), Some(h))
         )(input)?,
         "head"          => map(
             tuple((&sub, comma, spaced(decimal))),
diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 9ffd4b0..e7e7ae9 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -289,7 +289,7 @@ impl<R: Reference> fmt::Display for Operation<R> {
             Self::OrReduce(sub)                     => write!(f, "orr({})", sub),
             Self::XorReduce(sub)                    => write!(f, "xorr({})", sub),
             Self::Cat(lhs, rhs)                     => write!(f, "cat({}, {})", lhs, rhs),
-            Self::Bits(sub, Some(l), Some(h))       => write!(f, "bits({}, {}, {})", sub, l, h),
+            Self::Bits(sub, Some(l), Some(h))       => write!(f, "bits({}, {}, {})", sub, h, l),
             Self::Bits(sub, None, Some(high))       => write!(f, "head({}, {})", sub, high),
             Self::Bits(sub, Some(low), None)        => write!(f, "tail({}, {})", sub, low),
             Self::Bits(..)                          => Err(Default::default()),
-- 
2.43.0


From 503a136b9139db8f844e39b9391cd5b5205a1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 05/24] fix: result types of incp, decp and setp

---
 src/expr/primitive.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index e7e7ae9..b1e1a7b 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -236,17 +236,16 @@ impl<R> types::Typed for Operation<R>
             })),
             Self::IncPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_add(*bits)),
-                p.and_then(|p| p.checked_add(*bits as SBits))
+                p.and_then(|p| (i32::from(p) + i32::from(*bits)).try_into().ok())
             )),
             Self::DecPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_sub(*bits)),
-                p.and_then(|p| p.checked_sub(*bits as SBits))
+                p.and_then(|p| (i32::from(p) - i32::from(*bits)).try_into().ok())
             )),
             Self::SetPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
-                w.and_then(|w| p.and_then(|p| (w as SBits).checked_sub(p)))
-                    .and_then(|w| w.checked_add(*bits))
+                w.and_then(|w| p.map(|p| i32::from(w) - i32::from(p) + i32::from(*bits)))
                     .and_then(|w| w.try_into().ok()),
-                p
+                Some(*bits)
             )),
         }
     }
-- 
2.43.0


From ed77857387a4d238a8e2a7236acf71489e07d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 06/24] fix: padding an operand of unknown width has an unknown
 width

---
 src/expr/primitive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index b1e1a7b..a50eb51 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -188,7 +188,8 @@ impl<R> types::Typed for Operation<R>
             Self::GEq(..)                   => Ok(GT::UInt(Some(1))),
             Self::Eq(..)                    => Ok(GT::UInt(Some(1))),
             Self::NEq(..)                   => Ok(GT::UInt(Some(1))),
-            Self::Pad(sub, bits)            => ground(sub).map(|t| t.with_width(max(t.width(), Some(*bits)))),
+            Self::Pad(sub, bits)            => ground(sub)
+                .map(|t| t.with_width(t.width().map(|w| max(w, *bits)))),
             Self::Cast(sub, target)         => ground(sub).map(|t| target.with_width(t.width())),
             Self::Shl(sub, bits)            => ground(sub)
                 .map(|t| t.with_width(t.width().and_then(|w| w.checked_add(*bits)))),
-- 
2.43.0


From 1cde0aa1bdef8dfdadd80affe6991ff51a3f532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 07/24] fix: width of a fixed shifted right by more than its
 width

---
 src/expr/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index a50eb51..3e012aa 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -197,7 +197,7 @@ impl<R> types::Typed for Operation<R>
                 GT::UInt(w)                 => Ok(GT::UInt(w.map(|w| max(w.saturating_sub(*bits), 1)))),
                 GT::SInt(w)                 => Ok(GT::SInt(w.map(|w| max(w.saturating_sub(*bits), 1)))),
                 GT::Fixed(Some(w), Some(p)) => Ok(
-                    GT::Fixed(w.checked_sub(*bits).map(|w| max(w, max(p, 1) as UBits)), Some(p))
+                    GT::Fixed(Some(max(w.saturating_sub(*bits), max(p, 1) as UBits)), Some(p))
                 ),
                 GT::Fixed(..)               => Ok(GT::Fixed(None, None)),
                 _ => Err(self.clone().into()),
-- 
2.43.0


From 8fd1f8a9cc53d2b6710753fcbbc6e30ef4515113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 08/24] fix: dynamic left shifts whose result just fits have a
 known width

---
 src/expr/primitive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 3e012aa..bc775e5 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -204,10 +204,10 @@ impl<R> types::Typed for Operation<R>
             }),
             Self::DShl(sub, bits)           => ground(sub).and_then(|t| Ok(t
                 .with_width(match (t.width(), ground(bits)?.width()) {
-                    (Some(ws), Some(wb)) => (1 as UBits)
+                    (Some(ws), Some(wb)) => 1u64
                         .checked_shl(wb.into())
-                        .and_then(|w| w.checked_add(ws))
-                        .map(|w| w - 1),
+                        .and_then(|w| (w - 1).checked_add(ws.into()))
+                        .and_then(|w| w.try_into().ok()),
                     _ => None,
                 })
             )),
-- 
2.43.0


From 0204726ca35f291ee9b2e3929ef1c7e5aa6cf404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 09/24] fix: bundles differing in a field orientation are not
 type equivalent

---
 src/types/type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/type.rs b/src/types/type.rs
index 5c0b687..44cac56 100644
--- a/src/types/type.rs
+++ b/src/types/type.rs
@@ -92,7 +92,7 @@ impl TypeExt for Type {
                     .zip(v2.iter())
                     .all(|(f1, f2)| f1.name() == f2.name() &&
                         TypeExt::eq(f1.r#type(), f2.r#type()) &&
-                        f1.orientation() == f1.orientation())
+                        f1.orientation() == f2.orientation())
             } else {
                 false
             },
-- 
2.43.0


From 885f7d492c37ff08d6149d6734566ca6f6ec0734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 10/24] fix: resets of the same kind are type equivalent and
 can be combined

---
 src/types/ground.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types/ground.rs b/src/types/ground.rs
index 64e4098..e05d05d 100644
--- a/src/types/ground.rs
+++ b/src/types/ground.rs
@@ -68,6 +68,7 @@ impl super::TypeExt for GroundType {
             (Self::SInt(_),     Self::SInt(_))     => true,
             (Self::Fixed(_, _), Self::Fixed(_, _)) => true,
             (Self::Clock,       Self::Clock)       => true,
+            (Self::Reset(l),    Self::Reset(r))    => l == r,
             (Self::Analog(_),   Self::Analog(_))   => true,
             _ => false
         }
@@ -88,7 +89,8 @@ impl super::TypeExt for GroundType {
 ///
 /// This [Combinator] combines [GroundType::UInt]s, [GroundType::SInt]s and
 /// [GroundType::Analog] based on [BitWidth] combination. [GroundType::Clock]s
-/// are combined to [GroundType::Clock]. Combination of different
+/// are combined to [GroundType::Clock] and [GroundType::Reset]s of the same
+/// kind to a [GroundType::Reset] of that kind. Combination of different
 /// [GroundType] variants or [GroundType::Fixed] will result in an `Err`.
 impl<C: Combinator<BitWidth>> Combinator<GroundType> for C {
     fn combine<'a>(
@@ -101,6 +103,7 @@ impl<C: Combinator<BitWidth>> Combinator<GroundType> for C {
             (GroundType::UInt(l),   GroundType::UInt(r))   => combine(l, r).map(GroundType::UInt),
             (GroundType::SInt(l),   GroundType::SInt(r))   => combine(l, r).map(GroundType::SInt),
             (GroundType::Clock,     GroundType::Clock)     => Ok(GroundType::Clock),
+            (GroundType::Reset(l),  GroundType::Reset(r)) if l == r => Ok(GroundType::Reset(*l)),
             (GroundType::Analog(l), GroundType::Analog(r)) => combine(l, r).map(GroundType::Analog),
             _ => Err((lhs, rhs))
         }
-- 
2.43.0


From fb45c332ef1950c11867262803de066d5da6ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 11/24] fix: report errors in and after the remaining modules
 of a circuit

---
 src/circuit.rs | 12 +++---------
 src/parsers.rs | 13 +++++++++----
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 6d979c4..46083dd 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -158,15 +158,9 @@ where I: Iterator<Item = Result<Arc<Module>, E>>,
 
     /// Try to create the requested circuit, consuming the iterator
     pub fn into_circuit(mut self) -> Result<Circuit, ParseError> {
-        let info = self.info;
-        match self.top_module {
-            TopState::Name(n)   => self
-                .modules
-                .find(|m| m.as_ref().ok().map(|m| m.name_ref() == n).unwrap_or(true))
-                .map(|r| r.map_err(Into::into))
-                .unwrap_or_else(|| Err("top module not found".to_owned().into())),
-            TopState::Module(m) => Ok(m),
-        }.map(|m| Circuit::new(m).with_info(info))
+        // The remaining input needs to be valid, even after the top module.
+        self.try_for_each(|r| r.map(|_| ())).map_err(Into::into)?;
+        self.circuit().ok_or_else(|| "top module not found".to_owned().into())
     }
 }
 
diff --git a/src/parsers.rs b/src/parsers.rs
index 8320f33..bcec068 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -145,15 +145,20 @@ pub fn op<'i>(operator: &'static str) -> impl nom::Parser<&'i str, (), Error<'i>
 ///
 /// This parser consumes line endings, optionally preceded by whitespace and/or
 /// a comment. If no line ending is recognized, this parser will yield an error.
+/// Whitespace or a comment between the last line ending and the end of the input
+/// is consumed, too.
 pub fn le<'i>(input: &'i str) -> IResult<'i, ()> {
     use nom::character::complete::{line_ending, not_line_ending};
-    use nom::combinator::opt;
+    use nom::combinator::{eof, opt};
 
-    nom::multi::fold_many1(
-        spaced(preceded(opt(tuple((chr(';'), not_line_ending))), line_ending)),
+    let comment = |i| opt(tuple((chr(';'), not_line_ending)))(i);
+
+    let (input, _) = nom::multi::fold_many1(
+        spaced(preceded(comment, line_ending)),
         Default::default,
         |_, _| ()
-    )(input)
+    )(input)?;
+    value((), opt(spaced(preceded(comment, eof))))(input)
 }
 
 
-- 
2.43.0


From 36a7f99f8d48cd57333934abe3a57fa2c928fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 12/24] fix: print the info of invalidations

---
 src/stmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stmt.rs b/src/stmt.rs
index ab78209..497681d 100644
--- a/src/stmt.rs
+++ b/src/stmt.rs
@@ -154,7 +154,7 @@ impl DisplayIndented for Statement {
             Kind::Empty                             => writeln!(f, "{}skip{}", indent.lock(), info),
             Kind::Declaration(entity)               => display::EntityDecl(entity, info).fmt(indent, f),
             Kind::SimpleMemDecl(mem)                => writeln!(f, "{}{}{}", indent.lock(), mem, info),
-            Kind::Invalidate(expr)                  => writeln!(f, "{}{} is invalid", indent.lock(), expr),
+            Kind::Invalidate(expr)                  => writeln!(f, "{}{} is invalid{}", indent.lock(), expr, info),
             Kind::Attach(exprs)                     =>
                 writeln!(f, "{}attach({}){}", indent.lock(), CommaSeparated::from(exprs), info),
             Kind::Conditional{cond, when, r#else}   => {
-- 
2.43.0


From ccacee6fae550691355c8fa2193b0f1b0c5689f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 13/24] fix: print doubles without fractional part as doubles

---
 src/module.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module.rs b/src/module.rs
index b221804..8e63617 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -308,6 +308,8 @@ impl fmt::Display for ParamValue {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Self::Int(v)    => fmt::Display::fmt(v, f),
+            // Without a fractional part, the value would be read as an integer
+            Self::Double(v) if v.fract() == 0.0 => write!(f, "{:.1}", v),
             Self::Double(v) => fmt::Display::fmt(v, f),
             Self::String(v) => {
                 fmt::Display::fmt(&'"', f)?;
-- 
2.43.0


From 627745dda3e5228d44f8db285f25bbdcd878b20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 14/24] fix: print the parameters of external modules in a
 fixed order

---
 src/module.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/module.rs b/src/module.rs
index 8e63617..e9943a2 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -110,8 +110,11 @@ impl DisplayIndented for Module {
                 .try_for_each(|s| DisplayIndented::fmt(s, &mut indentation, f)),
             Kind::External{defname, params} => {
                 defname.as_ref().map(|n| writeln!(f, "{}defname = {}", indentation.lock(), n)).transpose()?;
+                // The order in which a map yields its entries is arbitrary
+                let mut params: Vec<_> = params.iter().collect();
+                params.sort_by_key(|(k, _)| *k);
                 params
-                    .iter()
+                    .into_iter()
                     .try_for_each(|(k, v)| writeln!(f, "{}parameter {} = {}", indentation.lock(), k, v))
             },
         }
-- 
2.43.0


From a282a950a3e7a38559792689a4bbc645b3d423a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 15/24] fix: reject format specifiers without an expression

---
 src/stmt/parsers.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 8be2785..2244fe3 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -8,7 +8,7 @@ use std::sync::Arc;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
-use nom::combinator::{iterator, map, opt, value, verify};
+use nom::combinator::{fail, iterator, map, opt, value, verify};
 use nom::multi::{many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
@@ -120,11 +120,13 @@ pub fn stmt<'i>(
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-                    let ps: Vec<_> = fmt_str.into_iter().filter_map(|e| match e {
+                    // Every specifier needs an expression
+                    let ps: Option<Vec<_>> = fmt_str.into_iter().map(|e| match e {
                         FmtStrPart::Literal(s) => Some(P::Literal(s)),
                         FmtStrPart::FormatSpec(f) => (&mut exprs).next().map(|e| P::Value(e, f)),
                     }).collect();
-                    exprs.finish().map(|(i, _)| (i, ps))
+                    let (i, _) = exprs.finish()?;
+                    ps.map_or_else(|| fail(i), |ps| Ok((i, ps)))
                 }),
                 rp,
                 optional_name,
-- 
2.43.0


From b5da184e3f9f392ed28ec9057b9bd04f882c2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 16/24] fix: accept empty format strings

---
 src/stmt/parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 2244fe3..5a483be 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -9,7 +9,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
 use nom::combinator::{fail, iterator, map, opt, value, verify};
-use nom::multi::{many1, separated_list1};
+use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
 use crate::expr::parsers::expr;
@@ -116,7 +116,7 @@ pub fn stmt<'i>(
                 comma,
                 spaced(|i| {
                     let (i, fmt_str) = map(
-                        tuple((chr('"'), many1(fmt_string_part), chr('"'))),
+                        tuple((chr('"'), many0(fmt_string_part), chr('"'))),
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-- 
2.43.0


From 46b253fcb2ba67f6f6ab52e2ffef179f20f9185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 17/24] fix: reject literals for which no width can be stated

---
 src/expr/parsers.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index a21f5b3..8938293 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -26,23 +26,17 @@ pub fn expr<'i, R: super::Reference + Clone>(
     let sub = |i| map(spaced(|i| expr(reference, i)), Arc::new)(i);
 
     let (input, res) = alt((
-        map(
+        map_opt(
             tuple((kw("UInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
-            |(_, width, _, value, _): (_, _, _, num_bigint::BigUint, _)| {
-                let width = width
-                    .or_else(|| value.bits().try_into().ok())
-                    .expect("Could not determine appropriate width");
-                E::UIntLiteral{value, width}
-            }
+            |(_, width, _, value, _): (_, _, _, num_bigint::BigUint, _)| width
+                .or_else(|| value.bits().try_into().ok())
+                .map(|width| E::UIntLiteral{value, width})
         ),
-        map(
+        map_opt(
             tuple((kw("SInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
-            |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| {
-                let width = width
-                    .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
-                    .expect("Could not determine appropriate width");
-                E::SIntLiteral{value, width}
-            }
+            |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| width
+                .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
+                .map(|width| E::SIntLiteral{value, width})
         ),
         map(
             tuple((kw("mux"), lp, &sub, comma, &sub, comma, &sub, rp)),
-- 
2.43.0


From fde8df70cde48d3346c9057f46a41a9822ab161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 18/24] fix: reject empty identifiers

---
 src/parsers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index bcec068..c0f19f2 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -7,7 +7,7 @@ mod tests;
 
 
 use nom::Parser;
-use nom::bytes::complete::{tag, take_while};
+use nom::bytes::complete::{tag, take_while, take_while1};
 use nom::character::complete::{char as chr, satisfy, space0};
 use nom::combinator::{not, peek, value};
 use nom::error::context;
@@ -24,12 +24,12 @@ pub type Error<'i> = nom::error::VerboseError<&'i str>;
 /// Parse an identifier
 ///
 /// The parser will consume the longest sequence of alphanumeric characters and
-/// '_'. However, the parser will return an error if the first character is a
-/// numeric character.
+/// '_'. However, the parser will return an error if that sequence is empty or if
+/// the first character is a numeric character.
 pub fn identifier(input: &str) -> IResult<&str> {
     context(
         "expected identifier",
-        preceded(peek(not(satisfy(char::is_numeric))), take_while(is_identifier_char))
+        preceded(peek(not(satisfy(char::is_numeric))), take_while1(is_identifier_char))
     )(input)
 }
 
-- 
2.43.0


From ab28a9e6b9a0726fddce4bc75d67666284f167d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 19/24] fix: reject memories stating an entry twice

---
 src/memory/parsers.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/memory/parsers.rs b/src/memory/parsers.rs
index b051fb7..6263563 100644
--- a/src/memory/parsers.rs
+++ b/src/memory/parsers.rs
@@ -36,21 +36,26 @@ pub fn memory<'i>(
     let mut read_latency: Option<mem::Latency> = Default::default();
     let mut write_latency: Option<mem::Latency> = Default::default();
     let mut ports: Vec<mem::Port> = Default::default();
-    let mut ruw: super::ReadUnderWrite = Default::default();
+    let mut ruw: Option<super::ReadUnderWrite> = Default::default();
+    let mut unique = true;
     (&mut entries).for_each(|e| match e {
-        Entry::DataType(t)      => data_type = Some(t),
-        Entry::Depth(v)         => depth = Some(v),
+        Entry::DataType(t)      => unique &= data_type.replace(t).is_none(),
+        Entry::Depth(v)         => unique &= depth.replace(v).is_none(),
         Entry::Port(p)          => ports.push(p),
-        Entry::ReadLatency(v)   => read_latency = Some(v),
-        Entry::WriteLatency(v)  => write_latency = Some(v),
-        Entry::RUW(v)           => ruw = v,
+        Entry::ReadLatency(v)   => unique &= read_latency.replace(v).is_none(),
+        Entry::WriteLatency(v)  => unique &= write_latency.replace(v).is_none(),
+        Entry::RUW(v)           => unique &= ruw.replace(v).is_none(),
     });
 
+    if !unique {
+        return Err(nom::Err::Error(parsers::Error::from_error_kind(input, EK::Permutation)))
+    }
+
     let mut res = mem::Memory::new(
         name,
         data_type.ok_or_else(|| nom::Err::Error(parsers::Error::from_error_kind(input, EK::Permutation)))?,
         depth.ok_or_else(|| nom::Err::Error(parsers::Error::from_error_kind(input, EK::Permutation)))?,
-    ).with_read_under_write(ruw);
+    ).with_read_under_write(ruw.unwrap_or_default());
 
     res.add_ports(ports);
     if let Some(v) = read_latency {
-- 
2.43.0


From c6c5a1e17ce25ae82687b97946cb0fc378a70bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 20/24] fix: reject external modules stating a parameter twice

---
 src/module/parsers.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/module/parsers.rs b/src/module/parsers.rs
index 4f817d1..f35a36f 100644
--- a/src/module/parsers.rs
+++ b/src/module/parsers.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::character::complete::char as chr;
-use nom::combinator::{iterator, map, value};
+use nom::combinator::{fail, iterator, map, value};
 use nom::multi::many0;
 use nom::sequence::tuple;
 
@@ -141,8 +141,12 @@ pub fn module<'i>(
                     |(.., k, _, v, _)| (k.into(), v)
                 ),
             );
-            params.extend(&mut param_iter);
-            param_iter.finish()?.0
+            let unique = (&mut param_iter).fold(true, |u, (k, v)| params.insert(k, v).is_none() && u);
+            let (input, _) = param_iter.finish()?;
+            if !unique {
+                return fail(input);
+            }
+            input
         },
     };
 
-- 
2.43.0


From f9c6041848b14e2cb8347246c0613dc2c89dca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:12 +0000
Subject: [PATCH 21/24] fix: reject modules with a malformed statement as a
 whole

---
 src/module/parsers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/module/parsers.rs b/src/module/parsers.rs
index f35a36f..b03c59e 100644
--- a/src/module/parsers.rs
+++ b/src/module/parsers.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::character::complete::char as chr;
-use nom::combinator::{fail, iterator, map, value};
+use nom::combinator::{eof, fail, iterator, map, peek, value};
 use nom::multi::many0;
 use nom::sequence::tuple;
 
@@ -104,6 +104,7 @@ pub fn module<'i>(
         |(_, kind, name, _, info, ..)| (name.into(), kind, info)
     )(input)?;
 
+    let mut outer = indentation.clone();
     let mut indentation = indentation.sub();
 
     let (input, ports) = many0(
@@ -150,6 +151,9 @@ pub fn module<'i>(
         },
     };
 
+    // Anything but another item next to the module is a malformed part of it.
+    let (input, _) = peek(alt((value((), eof), outer.parser())))(input)?;
+
     Ok((input, super::Module::new(name, ports, kind).with_info(info)))
 }
 
-- 
2.43.0


From 87bc46e8c56a8bb28f44110e6402975448a8cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:12 +0000
Subject: [PATCH 22/24] fix: accept whitespace within bit-widths and point
 offsets

---
 src/types/parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index 29a3edf..51bb73b 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -18,7 +18,7 @@ use crate::parsers::{IResult, decimal, is_identifier_char, kw, op, spaced};
 pub fn ground_type(input: &str) -> IResult<super::GroundType> {
     use super::{GroundType as G, ResetKind as K};
 
-    let point_offset = |i| opt(spaced(map(tuple((op("<<"), decimal, op(">>"))), |(_, w, _)| w)))(i);
+    let point_offset = |i| opt(spaced(map(tuple((op("<<"), spaced(decimal), spaced(op(">>")))), |(_, w, _)| w)))(i);
 
     alt((
         map(preceded(kw("UInt"), bitwidth), G::UInt),
@@ -36,7 +36,7 @@ pub fn ground_type(input: &str) -> IResult<super::GroundType> {
 ///
 /// This function parses an optional bit-width encapsulated in `<` and `>`.
 pub fn bitwidth(input: &str) -> IResult<super::BitWidth> {
-    opt(map(spaced(tuple((op("<"), decimal, op(">")))), |(_, w, _)| w))(input)
+    opt(map(spaced(tuple((op("<"), spaced(decimal), spaced(op(">"))))), |(_, w, _)| w))(input)
 }
 
 
-- 
2.43.0


From c175c36b7b3c7b18c6761d8d59c44b9f143e6caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:18 +0000
Subject: [PATCH 23/24] fix: accept memory entries without whitespace behind
 the arrow

---
 src/memory/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/parsers.rs b/src/memory/parsers.rs
index 6263563..b05e2c2 100644
--- a/src/memory/parsers.rs
+++ b/src/memory/parsers.rs
@@ -191,7 +191,7 @@ fn entry<'i>(input: &'i str) -> IResult<'i, Entry> {
 fn arrow<'i>(input: &'i str) -> IResult<'i, ()> {
     use nom::Parser;
 
-    spaced(kw("=>")).parse(input)
+    spaced(op("=>")).parse(input)
 }
 
 fn ruw<'i>(input: &'i str) -> IResult<'i, super::ReadUnderWrite> {
-- 
2.43.0


From f0d2bfd36a2d9a3dbe7d7c8ca1d819e3588ce8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 24/24] fix: reject parameters beyond the range of a double

---
 src/module/parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/parsers.rs b/src/module/parsers.rs
index b03c59e..519bec7 100644
--- a/src/module/parsers.rs
+++ b/src/module/parsers.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::character::complete::char as chr;
-use nom::combinator::{eof, fail, iterator, map, peek, value};
+use nom::combinator::{eof, fail, iterator, map, peek, value, verify};
 use nom::multi::many0;
 use nom::sequence::tuple;
 
@@ -172,7 +172,7 @@ pub fn param_value(input: &str) -> IResult<super::ParamValue> {
     use super::ParamValue as PV;
 
     alt((
-        map(float, PV::Double),
+        map(verify(float, |v: &f64| v.is_finite()), PV::Double),
         map(decimal, PV::Int),
         map(
             tuple((chr('"'), |i| unquoted_string(i, &['\n', '\t', '"']), chr('"'))),
-- 
2.43.0

