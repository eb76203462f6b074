From 9aa6f3d6cfa567e156d363eeae88063de9a9970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 01/34] fix: power_iu returned 0 for a^0 and the exponent for
 a^1

---
 projects/sm-algorithm/src/basic/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 4f12eab..74364d9 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -3,7 +3,6 @@ use crate::{
     Result,
 };
 use num::{
-    bigint::Sign,
     integer::{gcd, ExtendedGcd},
     traits::Pow,
     BigInt, BigUint, Integer, One, ToPrimitive, Zero,
@@ -13,14 +12,14 @@ pub fn power_iu(a: &BigInt, b: &BigUint) -> Result<BigInt> {
     if a.is_zero() && b.is_zero() {
         return Err(Indeterminate);
     }
-    else if a.is_zero() || b.is_zero() {
+    else if a.is_zero() {
         return Ok(BigInt::zero());
     }
-    else if a.is_one() {
+    else if a.is_one() || b.is_zero() {
         return Ok(BigInt::one());
     }
     else if b.is_one() {
-        return Ok(BigInt::from_biguint(Sign::Plus, b.clone()));
+        return Ok(a.clone());
     }
     match b.to_u32() {
         None => Err(OverFlow),
-- 
2.43.0


From fc780549944b47f1ee608a323aabaa9e1d34b931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 02/34] fix: modulo_division used the coefficient of the
 modulus instead of the divisor's

---
 projects/sm-algorithm/src/basic/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 74364d9..7001b95 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -69,8 +69,8 @@ fn test_modulo_inverse() {
 /// division in modulo
 /// $bx \equiv a \pmod{m}$
 pub fn modulo_division(a: &BigInt, b: &BigInt, m: &BigInt) -> Option<BigInt> {
-    let ExtendedGcd { gcd, x: _, y, .. } = b.extended_gcd(m);
-    if (a % &gcd).is_zero() { Some(a / &gcd * y) } else { None }
+    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(m);
+    if (a % &gcd).is_zero() { Some(a / &gcd * x) } else { None }
 }
 
 #[test]
-- 
2.43.0


From 51b58e903ceada7f11a7d677ce17bf7e8ec6aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 03/34] fix: chinese_remainder panicked on an empty system

---
 projects/sm-algorithm/src/basic/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 7001b95..be742c2 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -95,7 +95,7 @@ pub fn chinese_remainder(u: &[BigInt], m: &[BigInt]) -> Option<BigInt> {
         let t = v.iter().zip(m.iter()).rev().fold(BigInt::zero(), |t, (v_j, m_j)| m_j * t + v_j % m_i);
         v.push((u_i - t) * c_i % m_i);
     }
-    let mut ret = v.pop().unwrap();
+    let mut ret = v.pop()?;
     for (v_i, m_i) in v.iter().zip(m.iter()).rev() {
         ret = ret * m_i + v_i;
     }
-- 
2.43.0


From d8aa9cd756ac367d647a3f88ec0936c972da50b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 04/34] fix: fibonacci_i never answered a negative index

---
 projects/sm-algorithm/src/linear/fibonacci.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/linear/fibonacci.rs b/projects/sm-algorithm/src/linear/fibonacci.rs
index 84d6206..067d0a9 100644
--- a/projects/sm-algorithm/src/linear/fibonacci.rs
+++ b/projects/sm-algorithm/src/linear/fibonacci.rs
@@ -5,8 +5,8 @@ use std::collections::BTreeMap;
 pub fn fibonacci_i(n: &BigInt) -> Result<BigInt> {
     match n.to_isize() {
         Some(s) => {
-            let u = fibonacci_fast_u(s as usize);
-            if s < 0 && s.is_even() { Ok(BigInt::from(-u)) } else { Ok(BigInt::from(u)) }
+            let u = BigInt::from(fibonacci_fast_u(s.unsigned_abs()));
+            if s < 0 && s.is_even() { Ok(-u) } else { Ok(u) }
         }
         None => Err(OverFlow),
     }
-- 
2.43.0


From bcb658e46cf80499317edb57093a69e9a5cdd9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 05/34] fix: prime_sum_u64 panicked on 0

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index 28cf76a..a05ba0b 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -12,6 +12,7 @@ use std::{collections::BTreeMap, str::FromStr};
 
 #[rustfmt::skip]
 pub fn prime_sum_u64(n: u64) -> u64 {
+    if n == 0 { return 0; }
     let r = n.sqrt() as u64;
     assert!(r * r <= n && (r + 1).pow(2) > n);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
-- 
2.43.0


From 53460b4a8247c7294e38241043dc876daf99b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 06/34] fix: prime sums overflowed for arguments from 2^32 on

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index a05ba0b..f6eb7b3 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -10,21 +10,25 @@ use itertools::Itertools;
 use num::{integer::Roots, BigInt, Signed, ToPrimitive};
 use std::{collections::BTreeMap, str::FromStr};
 
-#[rustfmt::skip]
 pub fn prime_sum_u64(n: u64) -> u64 {
+    prime_sum_u128(n).to_u64().expect("prime sum exceeds 64 bits")
+}
+
+#[rustfmt::skip]
+fn prime_sum_u128(n: u64) -> u128 {
     if n == 0 { return 0; }
     let r = n.sqrt() as u64;
     assert!(r * r <= n && (r + 1).pow(2) > n);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
     v.extend((0..*v.last().unwrap()).rev());
-    let mut s: BTreeMap<u64, u64> = v.iter().copied().map(|i| (i, ((i + 1) * i / 2).wrapping_sub(1))).collect();
+    let mut s: BTreeMap<u64, u128> = v.iter().copied().map(|i| (i, ((i as u128 + 1) * i as u128 / 2).wrapping_sub(1))).collect();
     for p in 2..=r {
         if s[&p] > s[&(p - 1)] {
             // p is prime
             let (sp, p2) = (s[&(p - 1)], p * p);
             for &ve in &v {
                 if ve < p2 { break; }
-                *s.get_mut(&ve).unwrap() -= p * (s[&(ve / p)] - sp);
+                *s.get_mut(&ve).unwrap() -= p as u128 * (s[&(ve / p)] - sp);
             }
         }
     }
@@ -79,7 +83,7 @@ pub fn prime_sum_i(n: &BigInt) -> Result<BigInt> {
     }
     return match n.to_u64() {
         None => Err(Unimplemented),
-        Some(s) => Ok(BigInt::from(prime_sum_u64(s))),
+        Some(s) => Ok(BigInt::from(prime_sum_u128(s))),
     };
 }
 
-- 
2.43.0


From 99fc7d39bc1fc4ff2a10db8ef79be3d2ac5009aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 07/34] fix: block comments appeared as operands in the parse
 tree

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8fc32f0..b0ca4f4 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -182,7 +182,7 @@ COMMENT = _{
   | "//!" ~ (!NEWLINE ~ ANY)* //fixme
   | "//*" ~ (!NEWLINE ~ ANY)* //warning
 }
-MultiLineComment = ${ "%%%" ~ (MultiLineComment | !"%%%" ~ ANY)* ~ "%%%"}
+MultiLineComment = _{ "%%%" ~ (MultiLineComment | !"%%%" ~ ANY)* ~ "%%%"}
 /*====================================================================================================================*/
 //!#56B6C2: Prefix|Infix|Postfix
 Prefix = @{
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index b3de4f1..8d8eac1 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -575,7 +575,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn MultiLineComment(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::MultiLineComment, |state| state.sequence(|state| state.match_string("%%%").and_then(|state| state.repeat(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| self::ANY(state)))))).and_then(|state| state.match_string("%%%")))))
+                    state.sequence(|state| state.match_string("%%%").and_then(|state| super::hidden::skip(state)).and_then(|state| state.sequence(|state| state.optional(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::ANY(state)))).and_then(|state| state.repeat(|state| state.sequence(|state| super::hidden::skip(state).and_then(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::ANY(state))))))))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("%%%")))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 423d3a291a43cf964b2e8b30698481813faec32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 08/34] fix: decimals with a zero after the point were split in
 two

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index b0ca4f4..696b001 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -146,7 +146,7 @@ Step = {expr}
 /*====================================================================================================================*/
 //!#D19A66: Integer|Decimal|Byte
 Number  = _{Byte|Decimal|Integer}
-Decimal = ${Integer ~ Dot ~ Integer}
+Decimal = ${Integer ~ Dot ~ ASCII_DIGIT+}
 Integer = @{"0"|Positive}
 Byte    = ${
     ^"0b" ~ (Underline? ~ ASCII_BIN_DIGIT)+
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 8d8eac1..8ff8ba7 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -500,7 +500,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Decimal(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::Integer(state)))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::ASCII_DIGIT(state)).and_then(|state| state.repeat(|state| self::ASCII_DIGIT(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 6c30941ec7923c4dcebe72ae9b09a6f5c32816ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 09/34] fix: names beginning with true, false or null were cut
 short

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 696b001..b77f3f8 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -168,7 +168,7 @@ SYMBOL = @{
 }
 /*====================================================================================================================*/
 ///#D19A66
-Special  = @{"null"|"true"|"false"}
+Special  = @{("null"|"true"|"false") ~ !XID_CONTINUE}
 Slot     = ${"##" ~ Positive?|"#" ~ (SYMBOL|Integer)?}
 REPL     = @{"¶" ~ Positive|"¶"+| "⁋" ~ Positive|"⁋"+}
 Positive = @{ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 8ff8ba7..e547246 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -545,7 +545,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Special(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Special, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("null").or_else(|state| state.match_string("true")).or_else(|state| state.match_string("false"))))
+                    state.rule(Rule::Special, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("null").or_else(|state| state.match_string("true")).or_else(|state| state.match_string("false")).and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 3d5c36bd18ed2a3fd3dffee3e8543eb88517dcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 10/34] fix: infix operators missing from the table dropped
 everything after them

---
 projects/sm-ast/src/parser/mod.rs | 13 ++++++++++++-
 projects/sm-ast/src/parser/ops.rs | 11 +++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/parser/mod.rs b/projects/sm-ast/src/parser/mod.rs
index 67a130a..056e8ec 100644
--- a/projects/sm-ast/src/parser/mod.rs
+++ b/projects/sm-ast/src/parser/mod.rs
@@ -12,14 +12,25 @@ pub struct ParserSettings {
 
 /// Determines the associativity and priority of operators
 /// use Precedence in Mathematica
-pub const OPERATORS: &[(Rule, u32, Assoc); 7] = &[
+pub const OPERATORS: &[(Rule, u32, Assoc); 16] = &[
+    // set : a = b
+    (Rule::Set, 40, Assoc::Right),
+    // compare: a > b
+    (Rule::Grater, 290, Assoc::Left),
+    (Rule::GraterEqual, 290, Assoc::Left),
+    (Rule::Equal, 290, Assoc::Left),
     // plus : a + b
     // minus: a - b
     (Rule::Plus, 310, Assoc::Left),
     (Rule::Minus, 310, Assoc::Left),
     //
     (Rule::Multiply, 400, Assoc::Left),
+    (Rule::CenterDot, 410, Assoc::Left),
+    (Rule::Kronecker, 420, Assoc::Left),
     (Rule::Divide, 470, Assoc::Left),
+    (Rule::Quotient, 470, Assoc::Left),
+    (Rule::Modulo, 470, Assoc::Left),
+    (Rule::TensorProduct, 520, Assoc::Left),
     //
     (Rule::Power, 590, Assoc::Right),
     // @
diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 51dda46..28532db 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -32,11 +32,18 @@ pub fn suffix_map(text: &str) -> Symbol {
 
 pub fn infix_map(text: &str) -> Symbol {
     let (n, p) = match text {
+        "=" => (text, 20),
+        ">" | ">=" | "==" => (text, 70),
         "+" => ("add", 80),
         "-" => ("subtract", 80),
         "*" => ("times", 140),
-        "/" => ("divide", 140),
-        "//" => ("quotient", 140),
+        "×" => (text, 140),
+        "⋅" => (text, 141),
+        "⊗" => (text, 142),
+        "/" => ("divide", 145),
+        "//" => ("quotient", 145),
+        "÷" | "%" => (text, 145),
+        "⊙" => (text, 147),
         "^" => ("power", 150),
         _ => (text, 170),
     };
-- 
2.43.0


From 4b7ad6ecd95f1d19a2d5b1b4cf664e62147f3141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 11/34] fix: printing dropped brackets that change the meaning

---
 projects/sm-ast/src/ast/traits.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 92a523f..f82344a 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -21,14 +21,21 @@ impl Display for AST {
                     SymbolKind::Alias => unimplemented!(),
                     SymbolKind::Prefix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{0}{1}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            return if arg.precedence() < 255 { write!(f, "{0}({1})", o, arg) } else { write!(f, "{0}{1}", o, arg) };
                         }
                     }
                     SymbolKind::Infix(o, p) => {
                         if is_multiary(ps) {
                             let mut v = vec![];
-                            for arg in &ps[0].arguments {
-                                if arg.precedence() < *p { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
+                            // equal precedence needs brackets on the side the operator does not associate to
+                            let open = match o.as_ref() {
+                                "^" | "=" => ps[0].arguments.len() - 1,
+                                _ => 0,
+                            };
+                            for (i, arg) in ps[0].arguments.iter().enumerate() {
+                                let q = arg.precedence();
+                                if q < *p || (q == *p && i != open) { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
                             }
                             // let j = if o.as_ref() == "*" { v.join(" ") } else { v.join(&format!(" {} ", o)) };
                             return write!(f, "{0}", v.join(o));
@@ -36,7 +43,8 @@ impl Display for AST {
                     }
                     SymbolKind::Suffix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{1}{0}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            return if arg.is_operation() { write!(f, "({1}){0}", o, arg) } else { write!(f, "{1}{0}", o, arg) };
                         }
                     }
                 }
@@ -113,6 +121,12 @@ impl AST {
         }
         return 255;
     }
+    pub(crate) fn is_operation(&self) -> bool {
+        match self {
+            AST::Function(v, ..) => v.is_prefix() || v.is_infix() || v.is_suffix(),
+            _ => false,
+        }
+    }
 }
 
 #[allow(dead_code)]
-- 
2.43.0


From 8cfa6c3e616a2a3c098d8886e5413112d30a97dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 12/34] fix: the infix + was never evaluated

---
 projects/sm-ast/src/evaluate/forward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 0d508b1..a4416bb 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -61,7 +61,7 @@ fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
         "length" => internal::length(&args[0])?,
         "factorial" => internal::factorial(&args[0])?,
         "fibonacci" => internal::fibonacci(&args[0])?,
-        "plus" => evaluate_additive(&args, ctx)?,
+        "plus" | "add" => evaluate_additive(&args, ctx)?,
         "times" => evaluate_multiplicative(&args, ctx)?,
         "power" => evaluate_power(&args, ctx)?,
         _ => {
-- 
2.43.0


From 78fd44fbc0cac83f3f72eaab78ff11bf796bd829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 13/34] fix: a power with a negative or huge exponent evaluated
 to its base

---
 projects/sm-ast/src/evaluate/forward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index a4416bb..493c83f 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -94,7 +94,7 @@ fn evaluate_multiplicative(vec: &[AST], _: &mut Context) -> S {
 fn evaluate_power(vec: &[AST], _: &mut Context) -> S {
     let out = match vec {
         [AST::Integer(lhs), AST::Integer(rhs)] => match rhs.to_u64() {
-            None => AST::Integer(lhs.clone()),
+            None => return Err(SMError::Overflow),
             Some(s) => AST::Integer(lhs.pow(s)),
         },
         _ => {
-- 
2.43.0


From e02577aab138c0922009da6bb30703994f2989b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 14/34] fix: unary built-ins crashed without an argument and
 ignored extra ones

---
 projects/sm-ast/src/evaluate/forward.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 493c83f..0d4e7fb 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -55,12 +55,13 @@ impl AST {
 // }
 fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
     let args = p.arguments;
+    let unary = args.len() == 1;
     let out = match f.name.as_str() {
-        "first" => internal::first(&args[0])?,
-        "last" => internal::last(&args[0])?,
-        "length" => internal::length(&args[0])?,
-        "factorial" => internal::factorial(&args[0])?,
-        "fibonacci" => internal::fibonacci(&args[0])?,
+        "first" if unary => internal::first(&args[0])?,
+        "last" if unary => internal::last(&args[0])?,
+        "length" if unary => internal::length(&args[0])?,
+        "factorial" if unary => internal::factorial(&args[0])?,
+        "fibonacci" if unary => internal::fibonacci(&args[0])?,
         "plus" | "add" => evaluate_additive(&args, ctx)?,
         "times" => evaluate_multiplicative(&args, ctx)?,
         "power" => evaluate_power(&args, ctx)?,
-- 
2.43.0


From 0a39f180b8eb246007b9b883ee1a0f4af573409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 15/34] fix: built-ins crashed on, or returned, arguments they
 do not support

---
 projects/sm-ast/src/internal/elementary.rs    | 8 +++-----
 projects/sm-ast/src/internal/list_like.rs     | 8 ++++----
 projects/sm-ast/src/internal/number_theory.rs | 5 ++---
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/projects/sm-ast/src/internal/elementary.rs b/projects/sm-ast/src/internal/elementary.rs
index 6ef050b..9712d36 100644
--- a/projects/sm-ast/src/internal/elementary.rs
+++ b/projects/sm-ast/src/internal/elementary.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::{factorial_i, fibonacci_i};
 
 pub fn sqrt(expr: &AST) -> SMResult<AST> {
@@ -63,16 +63,14 @@ pub fn log10(expr: &AST) -> SMResult<AST> {
 pub fn factorial(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(factorial_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
 pub fn fibonacci(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(fibonacci_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index d367693..1e65ec5 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -1,4 +1,4 @@
-use crate::{error::SMError::EmptyContainer, SMResult, AST};
+use crate::{error::SMError::EmptyContainer, SMError, SMResult, AST};
 
 pub fn head(expr: &AST) -> AST {
     match expr {
@@ -19,7 +19,7 @@ pub fn head(expr: &AST) -> AST {
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::String(s) => Ok(AST::integer(s.len())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -29,7 +29,7 @@ pub fn first(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `first` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -39,7 +39,7 @@ pub fn last(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `last` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
diff --git a/projects/sm-ast/src/internal/number_theory.rs b/projects/sm-ast/src/internal/number_theory.rs
index 3518111..acd8dec 100644
--- a/projects/sm-ast/src/internal/number_theory.rs
+++ b/projects/sm-ast/src/internal/number_theory.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::prime_sum_i;
 
 pub fn floor(expr: &AST) -> SMResult<AST> {
@@ -40,7 +40,6 @@ pub fn factor_integer(expr: &AST) -> SMResult<AST> {
 pub fn prime_sum(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(prime_sum_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
-- 
2.43.0


From e6942fd65917c0a1187f216d99a349a933ed8de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 16/34] fix: statements after the first were dropped and
 unsupported ones crashed the parser

---
 projects/sm-ast/src/ast/traits.rs       |  4 ++--
 projects/sm-ast/src/evaluate/forward.rs |  8 ++++++-
 projects/sm-ast/src/parser/parse.rs     | 32 ++++++++++++++++++++-----
 projects/sm-ast/src/traits/tex/mod.rs   |  2 +-
 4 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index f82344a..c37aaa2 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -13,8 +13,8 @@ use std::{
 impl Display for AST {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            AST::EmptyStatement => unimplemented!(),
-            AST::Program(_) => unimplemented!(),
+            AST::EmptyStatement => write!(f, ""),
+            AST::Program(v) => write!(f, "{}", v.iter().join(";")),
             AST::Function(s, ps) => {
                 match &s.kind {
                     SymbolKind::Normal => unimplemented!(),
diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 0d4e7fb..9e692d1 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -10,7 +10,13 @@ impl AST {
     pub fn forward(&self, ctx: &mut Context) -> S {
         let out = match self {
             AST::EmptyStatement | AST::Boolean(..) | AST::Integer(..) | AST::Decimal(..) | AST::Symbol(..) | AST::String(..) => self.clone(),
-            AST::Program(_) => unimplemented!(),
+            AST::Program(v) => {
+                let mut last = AST::EmptyStatement;
+                for e in v {
+                    last = e.forward(ctx)?;
+                }
+                last
+            }
             AST::Function(s, p) => match p.len() {
                 0 => AST::Symbol(s.clone()),
                 1 => evaluate_function(s, p[0].clone(), ctx)?,
diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index df9e5df..c91301e 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -1,7 +1,7 @@
 use crate::{
     ast::{Expression, Parameter, Position, Symbol},
     parser::{infix_map, prefix_map, suffix_map, ParserSettings, CLIMBER},
-    SMResult, ToWolfram, AST,
+    SMError, SMResult, ToWolfram, AST,
 };
 use bigdecimal::BigDecimal;
 use num::{BigInt, Num};
@@ -14,6 +14,21 @@ use std::{
     str::FromStr,
 };
 
+/// constructs which the grammar accepts but which have no AST yet
+fn check_supported(expression: &Pair<Rule>) -> SMResult<()> {
+    for pair in expression.clone().into_inner().flatten() {
+        let supported = match pair.as_rule() {
+            Rule::dict | Rule::derivative => false,
+            Rule::Suffix => pair.as_str() == "!" || pair.as_str() == "!!",
+            _ => true,
+        };
+        if !supported {
+            return Err(SMError::Unimplemented(format!("Unimplemented Syntax: {}", pair.as_str())));
+        }
+    }
+    Ok(())
+}
+
 impl ParserSettings {
     pub fn parse_file(&self, path_from: &str, path_to: &str) -> SMResult<()> {
         let r = read_to_string(path_from)?;
@@ -28,17 +43,22 @@ impl ParserSettings {
 
     pub fn parse(&self, text: &str) -> SMResult<AST> {
         let pairs = SMParser::parse(Rule::program, text)?;
+        let mut program = vec![];
         for pair in pairs {
             match pair.as_rule() {
-                Rule::EOI => continue,
+                Rule::EOI | Rule::COMMENT | Rule::emptyStatement => continue,
                 Rule::expression => {
-                    return Ok(self.parse_expression(pair).0);
+                    check_supported(&pair)?;
+                    program.push(self.parse_expression(pair).0);
                 }
-                Rule::COMMENT => continue,
-                _ => debug_cases!(pair),
+                r => return Err(SMError::Unimplemented(format!("Unimplemented Statement: {:?}", r))),
             };
         }
-        return Ok(AST::EmptyStatement);
+        return Ok(match program.len() {
+            0 => AST::EmptyStatement,
+            1 => program.remove(0),
+            _ => AST::Program(program),
+        });
     }
 
     fn parse_expression(&self, pairs: Pair<Rule>) -> (AST, bool) {
diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index d7278b6..afd15b1 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -14,7 +14,7 @@ impl ToTex for AST {
     fn to_tex(&self) -> String {
         match (*self).clone() {
             AST::EmptyStatement => format!(""),
-            AST::Program(_) => unimplemented!(),
+            AST::Program(v) => v.iter().map(AST::to_tex).collect_vec().join("; "),
             AST::Integer(i) => format!("{}", i),
             AST::Decimal(f) => format!("{}", f),
             AST::Symbol(s) => format!("{}", s.name),
-- 
2.43.0


From 51b10eb060345984b05ed7e59a381a02eb0f4368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 17/34] =?UTF-8?q?fix:=20the=20prefix=20operator=20=C2=AC?=
 =?UTF-8?q?=20crashed=20the=20parser?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/parser/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 28532db..1424a49 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -5,7 +5,7 @@ pub fn prefix_map(text: &str) -> Symbol {
         "+" => "plus",
         "-" => "minus",
         "*" => "unpack",
-        "!" => "not",
+        "!" | "¬" => "not",
         _ => unreachable!(),
     };
     Symbol {
-- 
2.43.0


From dd1828ad733308b2eaa92c81cdca622d9b5ba7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 18/34] fix: null parsed to a symbol with a malformed name

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index c91301e..7397633 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -402,7 +402,7 @@ impl ParserSettings {
 
     fn parse_special(&self, pairs: Pair<Rule>) -> AST {
         match pairs.as_str() {
-            "null" => AST::symbol("std::constant:Null"),
+            "null" => AST::symbol("std::constant::Null"),
             "true" => AST::Boolean(true),
             "false" => AST::Boolean(false),
             _ => unreachable!(),
-- 
2.43.0


From 3935d4a7ca5eb54bb993854184e5f4dd98821fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 19/34] fix: an underscore after a radix prefix crashed the
 parser

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 7397633..004eda2 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -384,7 +384,7 @@ impl ParserSettings {
             _ => unreachable!(),
         };
         // It is impossible to get `from_str_radix` errors due to the constraints of the parser
-        let i = BigInt::from_str_radix(&s[2..s.len()], base).unwrap();
+        let i = BigInt::from_str_radix(&s[2..s.len()].replace("_", ""), base).unwrap();
         return AST::Integer(i);
     }
 
-- 
2.43.0


From e3e2894d7f168991017c7d762e0d20beefd78977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 20/34] fix: a numbered slot sequence crashed the parser

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 004eda2..bb7d5e5 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -364,7 +364,7 @@ impl ParserSettings {
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::SYMBOL => slot.push(AST::string(pair.as_str())),
-                Rule::Integer => {
+                Rule::Integer | Rule::Positive => {
                     let i = BigInt::from_str(pair.as_str()).unwrap();
                     slot.push(AST::integer(i))
                 }
-- 
2.43.0


From 0fe3a8248b43e3e9b1958fcf793cf63360db05db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 21/34] fix: juxtaposed calls, decimals and radix integers
 crashed the parser

---
 projects/sm-ast/src/parser/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index bb7d5e5..3c03380 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -198,6 +198,9 @@ impl ParserSettings {
                 Rule::Integer => {
                     stack.push(self.parse_integer(pair));
                 }
+                Rule::Decimal => stack.push(self.parse_decimal(pair)),
+                Rule::Byte => stack.push(self.parse_byte(pair)),
+                Rule::apply_call => stack.push(self.parse_apply_call(pair)),
                 _ => debug_cases!(pair),
             };
         }
-- 
2.43.0


From 6f74ce9e0dc98c0d92d27168b9b5b6ddffb38f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 22/34] fix: a dot followed by an operator or literal crashed
 or merged operands

---
 projects/sm-ast/src/parser/parse.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 3c03380..0eac4aa 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -1,5 +1,5 @@
 use crate::{
-    ast::{Expression, Parameter, Position, Symbol},
+    ast::{Expression, Parameter, Position, Symbol, SymbolKind},
     parser::{infix_map, prefix_map, suffix_map, ParserSettings, CLIMBER},
     SMError, SMResult, ToWolfram, AST,
 };
@@ -156,7 +156,7 @@ impl ParserSettings {
                 let p2 = Parameter { arguments: vec![lhs], options: Default::default(), position: position.clone() };
                 AST::Function(rs, vec![p2])
             }
-            AST::Function(rs, mut p) => {
+            AST::Function(rs, mut p) if rs.kind == SymbolKind::Normal => {
                 let old = &mut p[0].arguments;
                 let mut new = vec![lhs];
                 new.extend_from_slice(&old);
@@ -168,7 +168,10 @@ impl ParserSettings {
                 let p = Parameter { arguments: vec![lhs, AST::integer(i)], options: Default::default(), position: position.clone() };
                 AST::Function(s, vec![p])
             }
-            _ => unreachable!(),
+            _ => {
+                let p = Parameter { arguments: vec![lhs, rhs], options: Default::default(), position: position.clone() };
+                AST::Function(infix_map("."), vec![p])
+            }
         };
     }
 
-- 
2.43.0


From 8368cacb43b7ee4ef8baded17be2c30a5dcf9849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 23/34] fix: Runner::last crashed without a last output

---
 projects/sm-ast/src/evaluate/traits.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/traits.rs b/projects/sm-ast/src/evaluate/traits.rs
index e50dba7..5296119 100644
--- a/projects/sm-ast/src/evaluate/traits.rs
+++ b/projects/sm-ast/src/evaluate/traits.rs
@@ -1,4 +1,4 @@
-use crate::{parser::ParserSettings, Runner, SMResult, AST};
+use crate::{parser::ParserSettings, Runner, SMError, SMResult, AST};
 
 impl Default for Runner {
     fn default() -> Self {
@@ -29,7 +29,9 @@ impl Runner {
     }
 
     pub fn last(&self) -> SMResult<AST> {
-        let o = self.ctx.outputs.get(&self.ctx.index).unwrap();
-        Ok(o.clone())
+        match self.ctx.outputs.get(&self.ctx.index) {
+            Some(o) => Ok(o.clone()),
+            None => Err(SMError::EmptyContainer(String::from("The last input has no output"))),
+        }
     }
 }
-- 
2.43.0


From 0975b086ed78cda2d7e32e42cc4186a0d1a0fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 24/34] fix: the TeX form of an empty list crashed

---
 projects/sm-ast/src/traits/tex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index afd15b1..6a50c7c 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -34,7 +34,7 @@ impl ToTex for AST {
                         format!(r"\\operatorname{{{}}}{}", s, omit_brackets_function(&p[0]))
                     }
                     "List" => {
-                        let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap();
+                        let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap_or(1);
                         let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();
                         if max > 1 { format!(r"\\left\\{{{}\\right\\}}", e.join(", ")) } else { format!(r"\\{{{}\\}}", e.join(", ")) }
                     }
-- 
2.43.0


From e792a05486720776431bcfdd2e8d26cb36d583c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 25/34] fix: the TeX form of a product dropped operands after
 the second

---
 projects/sm-ast/src/traits/tex/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/traits/tex/utils.rs b/projects/sm-ast/src/traits/tex/utils.rs
index 44f1474..7d6565c 100644
--- a/projects/sm-ast/src/traits/tex/utils.rs
+++ b/projects/sm-ast/src/traits/tex/utils.rs
@@ -10,7 +10,7 @@ pub(crate) fn infix_tex(s: &Symbol, p: &Parameter) -> String {
     let rhs = &p.arguments[1];
     let ops = match s.name.as_str() {
         "add" => "+",
-        "times" => return format!("{} {}", lhs, rhs),
+        "times" => return p.arguments.iter().join(" "),
         _ => &s.name,
     };
     format!("{} {} {}", lhs, ops, rhs)
-- 
2.43.0


From 4a075d4be295d7806997af5e87d2652d2a86f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 26/34] fix: factorial of a negative integer below the machine
 word reported an overflow

---
 projects/sm-algorithm/src/gamma/factorial.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/sm-algorithm/src/gamma/factorial.rs b/projects/sm-algorithm/src/gamma/factorial.rs
index 64b37ae..68b7892 100644
--- a/projects/sm-algorithm/src/gamma/factorial.rs
+++ b/projects/sm-algorithm/src/gamma/factorial.rs
@@ -1,5 +1,5 @@
 use crate::Result;
-use num::{BigInt, ToPrimitive};
+use num::{BigInt, Signed, ToPrimitive};
 // ```wl
 // TemplateApply[
 // "cache.insert(`1`,BigInt::from(`2`));\n",
@@ -29,6 +29,7 @@ pub fn factorial_i(n: &BigInt) -> Result<BigInt> {
                 Ok(BigInt::from(factorial_fold_u(s as usize)))
             }
         }
+        None if n.is_negative() => Err(ComplexInfinity),
         None => Err(OverFlow),
     }
 }
-- 
2.43.0


From 8bf1abea0dd80862506c978c97f4a38ea51c81a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 27/34] fix: text between two block comments was swallowed as
 comment

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index b77f3f8..b7ec4b0 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -182,7 +182,7 @@ COMMENT = _{
   | "//!" ~ (!NEWLINE ~ ANY)* //fixme
   | "//*" ~ (!NEWLINE ~ ANY)* //warning
 }
-MultiLineComment = _{ "%%%" ~ (MultiLineComment | !"%%%" ~ ANY)* ~ "%%%"}
+MultiLineComment = _{ "%%%" ~ (!"%%%" ~ ANY)* ~ "%%%"}
 /*====================================================================================================================*/
 //!#56B6C2: Prefix|Infix|Postfix
 Prefix = @{
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index e547246..e1cf584 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -575,7 +575,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn MultiLineComment(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.sequence(|state| state.match_string("%%%").and_then(|state| super::hidden::skip(state)).and_then(|state| state.sequence(|state| state.optional(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::ANY(state)))).and_then(|state| state.repeat(|state| state.sequence(|state| super::hidden::skip(state).and_then(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::ANY(state))))))))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("%%%")))
+                    state.sequence(|state| state.match_string("%%%").and_then(|state| super::hidden::skip(state)).and_then(|state| state.sequence(|state| state.optional(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::ANY(state))).and_then(|state| state.repeat(|state| state.sequence(|state| super::hidden::skip(state).and_then(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::ANY(state)))))))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("%%%")))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 054a9c098091b126ee091f8ff1f8125553980139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 28/34] fix: whitespace and comments inside grouping
 parentheses were refused

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index b7ec4b0..5410850 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -114,7 +114,7 @@ function_module = {Dot ~ (SYMBOL ~ Dot)*}
 expression =  {expr~eos?}
 expr       = !{term ~ (Infix ~ term)*}
 term       = ${Prefix* ~ node ~ (Suffix|(!NEWLINE ~ WHITESPACE)* ~ slice)*}
-node       =  {"(" ~ expr ~ ")"|apply_call|derivative|space_call|data}
+node       = !{"(" ~ expr ~ ")"|apply_call|derivative|space_call|data}
 apply_call = ${Symbol ~ ((!NEWLINE ~ WHITESPACE)* ~ apply)+}
 derivative = ${Symbol ~ Derivative ~ (!NEWLINE ~ WHITESPACE)* ~ apply}
 space_call = ${(apply_call|Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index e1cf584..b0e8d01 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -410,7 +410,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn node(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state))))
+                    state.atomic(::pest::Atomicity::NonAtomic, |state| state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state)))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From bb7ea64f480400d1123e4475813fb5c642c4fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 29/34] fix: the TeX form of a chained trigonometric call
 dropped later argument groups

---
 projects/sm-ast/src/traits/tex/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index 6a50c7c..64f0424 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -28,10 +28,12 @@ impl ToTex for AST {
                 }
                 match s.name.as_ref() {
                     "sin" | "cos" | "tan" | "cot" | "sec" | "csc" | "arcsin" | "arccos" | "arctan" => {
-                        format!(r"\\{}{}", s, omit_brackets_function(&p[0]))
+                        let rest = p[1..].iter().map(Parameter::to_tex).collect_vec().join("");
+                        format!(r"\\{}{}{}", s, omit_brackets_function(&p[0]), rest)
                     }
                     "arccot" | "arcsec" | "arccsc" | "arcsinh" | "arccosh" | "arctanh" | "arccoth" | "arcsech" | "arccsch" => {
-                        format!(r"\\operatorname{{{}}}{}", s, omit_brackets_function(&p[0]))
+                        let rest = p[1..].iter().map(Parameter::to_tex).collect_vec().join("");
+                        format!(r"\\operatorname{{{}}}{}{}", s, omit_brackets_function(&p[0]), rest)
                     }
                     "List" => {
                         let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap_or(1);
-- 
2.43.0


From ced81d889027b3a5a8359d55e6eb3eb842b27539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 30/34] fix: the operators ==, >= and // could not be written

---
 projects/sm-ast/src/ast/traits.rs   | 3 ++-
 projects/sm-parser/simple-math.pest | 6 +++---
 projects/sm-parser/src/sm_parser.rs | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index c37aaa2..88004dd 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -38,7 +38,8 @@ impl Display for AST {
                                 if q < *p || (q == *p && i != open) { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
                             }
                             // let j = if o.as_ref() == "*" { v.join(" ") } else { v.join(&format!(" {} ", o)) };
-                            return write!(f, "{0}", v.join(o));
+                            // `//` directly before some prefixes would begin a comment
+                            return if o.as_ref() == "//" { write!(f, "{0}", v.join(" // ")) } else { write!(f, "{0}", v.join(o)) };
                         }
                     }
                     SymbolKind::Suffix(o) => {
diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 5410850..0e17efb 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -194,11 +194,11 @@ Suffix = @{
   | Bang | Question
 }
 Infix = _{
-    Set
+    Equal|Set
   | Plus|Minus
-  | Multiply|CenterDot|Kronecker|TensorProduct|Divide|Quotient|Modulo
+  | Multiply|CenterDot|Kronecker|TensorProduct|Quotient|Divide|Modulo
   | Power
-  | Grater|GraterEqual|Equal
+  | GraterEqual|Grater
   | Dot
 }
 
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index b0e8d01..24ecfcc 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -590,7 +590,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Infix(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    self::Set(state).or_else(|state| self::Plus(state)).or_else(|state| self::Minus(state)).or_else(|state| self::Multiply(state)).or_else(|state| self::CenterDot(state)).or_else(|state| self::Kronecker(state)).or_else(|state| self::TensorProduct(state)).or_else(|state| self::Divide(state)).or_else(|state| self::Quotient(state)).or_else(|state| self::Modulo(state)).or_else(|state| self::Power(state)).or_else(|state| self::Grater(state)).or_else(|state| self::GraterEqual(state)).or_else(|state| self::Equal(state)).or_else(|state| self::Dot(state))
+                    self::Equal(state).or_else(|state| self::Set(state)).or_else(|state| self::Plus(state)).or_else(|state| self::Minus(state)).or_else(|state| self::Multiply(state)).or_else(|state| self::CenterDot(state)).or_else(|state| self::Kronecker(state)).or_else(|state| self::TensorProduct(state)).or_else(|state| self::Quotient(state)).or_else(|state| self::Divide(state)).or_else(|state| self::Modulo(state)).or_else(|state| self::Power(state)).or_else(|state| self::GraterEqual(state)).or_else(|state| self::Grater(state)).or_else(|state| self::Dot(state))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 3d08c8c6202147aa9dab558229118ee9ba09a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 31/34] fix: names beginning with a statement keyword were
 refused at the start of a statement

---
 projects/sm-parser/simple-math.pest | 3 +++
 projects/sm-parser/src/sm_parser.rs | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 0e17efb..2211a3a 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -2,6 +2,7 @@ program = _{SOI~statement* ~ EOI}
 
 statement = _{
     emptyStatement
+  | &LongName ~ expression
   | importStatement ~ eos?
   | classStatement ~ eos?
   | traitStatement ~ eos?
@@ -12,6 +13,8 @@ statement = _{
   | annotation ~ eos?
   | expression
 }
+// names which begin with a keyword
+LongName = @{("using"|"class"|"trait"|"extends"|"if"|"for"|"return"|"break"|"pass"|"let"|"def") ~ XID_CONTINUE}
 /*====================================================================================================================*/
 emptyStatement = {eos | Separate}
 eos = {Semicolon}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 24ecfcc..da51922 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -5,6 +5,7 @@ pub enum Rule {
     EOI,
     program,
     statement,
+    LongName,
     emptyStatement,
     eos,
     comma_or_semi,
@@ -175,7 +176,12 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn statement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    self::emptyStatement(state).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::importStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::classStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::traitStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::extendStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::controlFlow(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::assignStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::defineStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::annotation(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| self::expression(state)))
+                    self::emptyStatement(state).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.lookahead(true, |state| self::LongName(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::expression(state))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::importStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::classStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::traitStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::extendStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::controlFlow(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::assignStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::defineStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::annotation(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| self::expression(state)))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn LongName(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::LongName, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("using").or_else(|state| state.match_string("class")).or_else(|state| state.match_string("trait")).or_else(|state| state.match_string("extends")).or_else(|state| state.match_string("if")).or_else(|state| state.match_string("for")).or_else(|state| state.match_string("return")).or_else(|state| state.match_string("break")).or_else(|state| state.match_string("pass")).or_else(|state| state.match_string("let")).or_else(|state| state.match_string("def")).and_then(|state| self::XID_CONTINUE(state)))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -988,6 +994,7 @@ impl ::pest::Parser<Rule> for SMParser {
         ::pest::state(input, |state| match rule {
             Rule::program => rules::program(state),
             Rule::statement => rules::statement(state),
+            Rule::LongName => rules::LongName(state),
             Rule::emptyStatement => rules::emptyStatement(state),
             Rule::eos => rules::eos(state),
             Rule::comma_or_semi => rules::comma_or_semi(state),
-- 
2.43.0


From 83bff66823aec83350570456145222c158645599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 32/34] =?UTF-8?q?fix:=20names=20with=20=E2=88=B7=20as=20se?=
 =?UTF-8?q?parator=20were=20not=20split?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/ast/traits.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 88004dd..db8ade7 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -75,6 +75,7 @@ impl Display for Position {
 
 impl From<&str> for Symbol {
     fn from(s: &str) -> Self {
+        let s = s.replace('∷', "::");
         let mut ns = s.split("::").map(String::from).collect_vec();
         let n = ns.pop().unwrap();
         Symbol { name_space: ns, name: n, kind: SymbolKind::Normal, attributes: 0 }
-- 
2.43.0


From 59558a9055b02703ef71ab536611f1f5084f6eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 33/34] fix: a juxtaposition beginning with a call fell apart
 into two statements

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 projects/sm-parser/simple-math.pest | 4 +++-
 projects/sm-parser/src/sm_parser.rs | 9 ++++++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 0eac4aa..bc0e5ef 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -141,7 +141,7 @@ impl ParserSettings {
         match pair.as_rule() {
             Rule::expr => self.parse_expr(pair),
             Rule::data => self.parse_data(pair),
-            Rule::apply_call => self.parse_apply_call(pair),
+            Rule::lone_call => self.parse_apply_call(pair.into_inner().nth(0).unwrap()),
             Rule::space_call => self.parse_space_call(pair),
             _ => debug_cases!(pair),
         }
diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 2211a3a..0239127 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -117,8 +117,10 @@ function_module = {Dot ~ (SYMBOL ~ Dot)*}
 expression =  {expr~eos?}
 expr       = !{term ~ (Infix ~ term)*}
 term       = ${Prefix* ~ node ~ (Suffix|(!NEWLINE ~ WHITESPACE)* ~ slice)*}
-node       = !{"(" ~ expr ~ ")"|apply_call|derivative|space_call|data}
+node       = !{"(" ~ expr ~ ")"|lone_call|derivative|space_call|data}
 apply_call = ${Symbol ~ ((!NEWLINE ~ WHITESPACE)* ~ apply)+}
+// a call which is not the first operand of a juxtaposition
+lone_call  = ${apply_call ~ !((!NEWLINE ~ WHITESPACE)* ~ (Number|Symbol))}
 derivative = ${Symbol ~ Derivative ~ (!NEWLINE ~ WHITESPACE)* ~ apply}
 space_call = ${(apply_call|Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
 /*====================================================================================================================*/
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index da51922..d5a9549 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -54,6 +54,7 @@ pub enum Rule {
     term,
     node,
     apply_call,
+    lone_call,
     derivative,
     space_call,
     type_expr,
@@ -416,7 +417,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn node(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::NonAtomic, |state| state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state)))))
+                    state.atomic(::pest::Atomicity::NonAtomic, |state| state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::lone_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state)))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -425,6 +426,11 @@ impl ::pest::Parser<Rule> for SMParser {
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
+                pub fn lone_call(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::lone_call, |state| state.sequence(|state| self::apply_call(state).and_then(|state| state.lookahead(false, |state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| self::Number(state).or_else(|state| self::Symbol(state)))))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
                 pub fn derivative(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
                     state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::derivative, |state| state.sequence(|state| self::Symbol(state).and_then(|state| self::Derivative(state)).and_then(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state))))).and_then(|state| self::apply(state)))))
                 }
@@ -1043,6 +1049,7 @@ impl ::pest::Parser<Rule> for SMParser {
             Rule::term => rules::term(state),
             Rule::node => rules::node(state),
             Rule::apply_call => rules::apply_call(state),
+            Rule::lone_call => rules::lone_call(state),
             Rule::derivative => rules::derivative(state),
             Rule::space_call => rules::space_call(state),
             Rule::type_expr => rules::type_expr(state),
-- 
2.43.0


From 5a245801e41d3e9babd0e6b57201ece92eaafd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 34/34] fix: parsing time grew exponentially with nested index
 brackets and calls

---
 projects/sm-ast/src/parser/parse.rs | 15 ++++++++++-----
 projects/sm-parser/simple-math.pest | 11 +++++------
 projects/sm-parser/src/sm_parser.rs |  6 +++---
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index bc0e5ef..84750f1 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -141,8 +141,8 @@ impl ParserSettings {
         match pair.as_rule() {
             Rule::expr => self.parse_expr(pair),
             Rule::data => self.parse_data(pair),
-            Rule::lone_call => self.parse_apply_call(pair.into_inner().nth(0).unwrap()),
-            Rule::space_call => self.parse_space_call(pair),
+            Rule::lone_call if pair.clone().into_inner().count() == 1 => self.parse_apply_call(pair.into_inner().nth(0).unwrap()),
+            Rule::lone_call | Rule::space_call => self.parse_space_call(pair),
             _ => debug_cases!(pair),
         }
     }
@@ -260,13 +260,16 @@ impl ParserSettings {
     }
 
     fn parse_index(&self, pairs: Pair<Rule>) -> AST {
-        let position = self.get_position(pairs.as_span());
+        // the rule may take whitespace after the last part
+        let last = pairs.clone().into_inner().last().unwrap();
+        let position = self.get_position(pairs.as_span().start_pos().span(&last.as_span().end_pos()));
+        let mut slice = false;
         let mut start = AST::integer(1);
         let mut end = AST::symbol("std::core::All");
         let mut step = AST::integer(1);
         for pair in pairs.into_inner() {
             match pair.as_rule() {
-                Rule::Colon => continue,
+                Rule::Colon => slice = true,
                 Rule::Start => {
                     let e = pair.into_inner().nth(0).unwrap();
                     start = self.parse_expr(e)
@@ -279,10 +282,12 @@ impl ParserSettings {
                     let e = pair.into_inner().nth(0).unwrap();
                     step = self.parse_expr(e);
                 }
-                Rule::expr => return self.parse_expr(pair),
                 _ => unreachable!(),
             };
         }
+        if !slice {
+            return start;
+        }
         let s = Symbol::from("std::core::Span");
         let p = Parameter { arguments: vec![start, end, step], options: Default::default(), position };
         return AST::Function(s, vec![p]);
diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 0239127..6a06360 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -119,10 +119,10 @@ expr       = !{term ~ (Infix ~ term)*}
 term       = ${Prefix* ~ node ~ (Suffix|(!NEWLINE ~ WHITESPACE)* ~ slice)*}
 node       = !{"(" ~ expr ~ ")"|lone_call|derivative|space_call|data}
 apply_call = ${Symbol ~ ((!NEWLINE ~ WHITESPACE)* ~ apply)+}
-// a call which is not the first operand of a juxtaposition
-lone_call  = ${apply_call ~ !((!NEWLINE ~ WHITESPACE)* ~ (Number|Symbol))}
+// a call, or a juxtaposition whose first operand is a call
+lone_call  = ${apply_call ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))*}
 derivative = ${Symbol ~ Derivative ~ (!NEWLINE ~ WHITESPACE)* ~ apply}
-space_call = ${(apply_call|Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
+space_call = ${(Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
 /*====================================================================================================================*/
 //!#E06C75: type_hint|generic_type|parametric_types_pair
 type_expr = _{term~ (TypeInfix ~term)*}
@@ -141,9 +141,8 @@ slice = !{"[" ~ index ~ (Comma ~ index)* ~ Comma? ~ "]"}
 key_valid =!{Integer | SYMBOL | String}
 key_value =!{key_valid ~ Colon ~ expr}
 index ={
-    Start? ~ Colon ~ End? ~ Colon ~ Step?
-  | Start? ~ Colon ~ End?
-  | expr
+    Start ~ (Colon ~ End? ~ (Colon ~ Step?)?)?
+  | Colon ~ End? ~ (Colon ~ Step?)?
 }
 Start = {expr}
 End = {expr}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index d5a9549..bcccfe6 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -427,7 +427,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn lone_call(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::lone_call, |state| state.sequence(|state| self::apply_call(state).and_then(|state| state.lookahead(false, |state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| self::Number(state).or_else(|state| self::Symbol(state)))))))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::lone_call, |state| state.sequence(|state| self::apply_call(state).and_then(|state| state.repeat(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -437,7 +437,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn space_call(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::space_call, |state| state.sequence(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)).and_then(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))).and_then(|state| state.repeat(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)))))))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::space_call, |state| state.sequence(|state| self::Number(state).or_else(|state| self::Symbol(state)).and_then(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))).and_then(|state| state.repeat(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -487,7 +487,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn index(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::index, |state| state.sequence(|state| state.optional(|state| state.restore_on_err(|state| self::Start(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state))))).or_else(|state| state.sequence(|state| state.optional(|state| state.restore_on_err(|state| self::Start(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))))).or_else(|state| state.restore_on_err(|state| self::expr(state))))
+                    state.rule(Rule::index, |state| state.restore_on_err(|state| state.sequence(|state| self::Start(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state)))))))))))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state))))))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0

