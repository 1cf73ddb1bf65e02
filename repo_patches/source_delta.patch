From df20c1172234409df6accaba7b858652e28a71a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 01/58] fix: parse floating point numbers to the nearest
 representable value

serde_json's default float parser can be off in the last place, so a float
literal, a parsed number or an imported number could differ from the value
written, and a printed float did not read back as itself.
---
 src/common/mod.rs       |  1 +
 src/common/number.rs    | 20 ++++++++++++++++++++
 src/core/expr.rs        |  3 +--
 src/eval/stg/string.rs  |  5 ++---
 src/eval/stg/syntax.rs  |  3 +--
 src/import/yaml.rs      |  5 +++--
 src/syntax/rowan/ast.rs |  3 ++-
 7 files changed, 30 insertions(+), 10 deletions(-)
 create mode 100644 src/common/number.rs

diff --git a/src/common/mod.rs b/src/common/mod.rs
index 5a28197..eee06bb 100644
--- a/src/common/mod.rs
+++ b/src/common/mod.rs
@@ -1,5 +1,6 @@
 pub mod diagnostic_json;
 pub mod environment;
+pub mod number;
 pub mod prettify;
 pub mod serde_sorted;
 pub mod sourcemap;
diff --git a/src/common/number.rs b/src/common/number.rs
new file mode 100644
index 0000000..d5c5e6e
--- /dev/null
+++ b/src/common/number.rs
@@ -0,0 +1,20 @@
+//! Number parsing
+
+use serde_json::Number;
+use std::str::FromStr;
+
+/// Parse a number with JSON syntax, rounding floats to the nearest
+/// representable value.
+///
+/// `serde_json` accepts the same texts but its default float parser may be
+/// off in the last place, so that a printed float would not read back as
+/// itself.
+pub fn parse_number(text: &str) -> Result<Number, serde_json::Error> {
+    let n = Number::from_str(text)?;
+    if n.is_f64() {
+        if let Some(exact) = text.parse().ok().and_then(Number::from_f64) {
+            return Ok(exact);
+        }
+    }
+    Ok(n)
+}
diff --git a/src/core/expr.rs b/src/core/expr.rs
index 0734705..77f5016 100644
--- a/src/core/expr.rs
+++ b/src/core/expr.rs
@@ -18,7 +18,6 @@ use serde_json::Number;
 mod number_serde {
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
     use serde_json::Number;
-    use std::str::FromStr;
 
     pub fn serialize<S: Serializer>(n: &Number, s: S) -> Result<S::Ok, S::Error> {
         n.to_string().serialize(s)
@@ -26,7 +25,7 @@ mod number_serde {
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Number, D::Error> {
         let text = String::deserialize(d)?;
-        Number::from_str(&text).map_err(serde::de::Error::custom)
+        crate::common::number::parse_number(&text).map_err(serde::de::Error::custom)
     }
 }
 use std::collections::HashMap;
diff --git a/src/eval/stg/string.rs b/src/eval/stg/string.rs
index 8db957c..65ddff3 100644
--- a/src/eval/stg/string.rs
+++ b/src/eval/stg/string.rs
@@ -1,7 +1,7 @@
 //! String and regex intrinsics
 
 use crate::{
-    common::sourcemap::Smid,
+    common::{number::parse_number, sourcemap::Smid},
     eval::{
         emit::Emitter,
         error::ExecutionError,
@@ -31,7 +31,6 @@ use super::{
 };
 
 use regex::Regex;
-use serde_json::Number;
 
 /// Get (or store and get) regex from machine rcache
 ///
@@ -299,7 +298,7 @@ impl StgIntrinsic for NumParse {
     ) -> Result<(), ExecutionError> {
         let string = str_arg(machine, view, &args[0])?;
 
-        if let Ok(num) = str::parse::<Number>(&string) {
+        if let Ok(num) = parse_number(&string) {
             machine_return_num(machine, view, num)
         } else {
             Err(ExecutionError::BadNumberFormat(
diff --git a/src/eval/stg/syntax.rs b/src/eval/stg/syntax.rs
index 0d76286..c40068c 100644
--- a/src/eval/stg/syntax.rs
+++ b/src/eval/stg/syntax.rs
@@ -20,7 +20,6 @@ use serde_json::Number;
 mod number_serde {
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
     use serde_json::Number;
-    use std::str::FromStr;
 
     pub fn serialize<S: Serializer>(n: &Number, s: S) -> Result<S::Ok, S::Error> {
         n.to_string().serialize(s)
@@ -28,7 +27,7 @@ mod number_serde {
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Number, D::Error> {
         let text = String::deserialize(d)?;
-        Number::from_str(&text).map_err(serde::de::Error::custom)
+        crate::common::number::parse_number(&text).map_err(serde::de::Error::custom)
     }
 }
 
diff --git a/src/import/yaml.rs b/src/import/yaml.rs
index 2c6e1f9..6488f87 100644
--- a/src/import/yaml.rs
+++ b/src/import/yaml.rs
@@ -1,4 +1,5 @@
 //! Import YAML and transform into core syntax
+use crate::common::number::parse_number;
 use crate::core::{desugar::Desugarer, expr::*};
 use crate::import::error::SourceError;
 use crate::{
@@ -10,8 +11,8 @@ use codespan::{ByteIndex, ByteOffset, Span};
 use codespan_reporting::files::SimpleFiles;
 use lazy_static::lazy_static;
 use regex::{Regex, RegexSet};
+use std::convert::TryInto;
 use std::{collections::HashMap, iter};
-use std::{convert::TryInto, str::FromStr};
 use yaml_rust::parser::{Event, MarkedEventReceiver, Parser};
 use yaml_rust::scanner::{Marker, TScalarStyle, TokenType};
 
@@ -274,7 +275,7 @@ impl<'smap> Receiver<'smap> {
             Tag::Null => Ok(core::null(smid)),
             Tag::Bool => Ok(core::bool_(smid, parse_bool(&text))),
             Tag::Str => Ok(core::str(smid, text)),
-            Tag::Int | Tag::Float => serde_json::Number::from_str(&text)
+            Tag::Int | Tag::Float => parse_number(&text)
                 .map_err(|_e| SourceError::InvalidNumber(text, self.file_id, span))
                 .map(|n| core::num(smid, n)),
             Tag::Timestamp => {
diff --git a/src/syntax/rowan/ast.rs b/src/syntax/rowan/ast.rs
index 3622362..2345101 100644
--- a/src/syntax/rowan/ast.rs
+++ b/src/syntax/rowan/ast.rs
@@ -7,6 +7,7 @@ use super::{
     ParseError,
 };
 
+use crate::common::number::parse_number;
 use rowan::{ast::AstNode, TextRange, TextSize};
 use serde_json::Number;
 
@@ -221,7 +222,7 @@ ast_token!(Num, NUMBER);
 
 impl Num {
     pub fn value(&self) -> Option<Number> {
-        self.text().parse().ok()
+        parse_number(self.text()).ok()
     }
 }
 
-- 
2.43.0


From 9772e0431226b30bb411dc1d4c9383e981859ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 02/58] fix: sort-nums and running aggregates keep numbers as
 they are

They went through f64, which turned integers into floats and changed
integers beyond 2^53.
---
 src/eval/stg/list.rs    | 10 +++++---
 src/eval/stg/running.rs | 54 ++++++++++++++++++++++++++---------------
 src/eval/stg/support.rs | 42 +++++++++++++++++++++++++++++---
 3 files changed, 79 insertions(+), 27 deletions(-)

diff --git a/src/eval/stg/list.rs b/src/eval/stg/list.rs
index 9f2e3e5..a03dc5c 100644
--- a/src/eval/stg/list.rs
+++ b/src/eval/stg/list.rs
@@ -16,7 +16,9 @@ use crate::{
 
 use super::{
     force::SeqNumList,
-    support::{collect_num_list, machine_return_bool, machine_return_num_list, num_arg},
+    support::{
+        collect_numbers, exact_num_ord, machine_return_bool, machine_return_numbers, num_arg,
+    },
     syntax::{
         dsl::{app_bif, case, data, f, force, lambda, local, lref, t, value},
         LambdaForm,
@@ -432,9 +434,9 @@ impl StgIntrinsic for SortNumList {
         _emitter: &mut dyn Emitter,
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
-        let mut numbers = collect_num_list(machine, view, args[0].clone())?;
-        numbers.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-        machine_return_num_list(machine, view, numbers)
+        let mut numbers = collect_numbers(machine, view, args[0].clone())?;
+        numbers.sort_by(exact_num_ord);
+        machine_return_numbers(machine, view, numbers)
     }
 }
 
diff --git a/src/eval/stg/running.rs b/src/eval/stg/running.rs
index a44e773..6dbd324 100644
--- a/src/eval/stg/running.rs
+++ b/src/eval/stg/running.rs
@@ -2,6 +2,8 @@
 
 use std::convert::TryInto;
 
+use serde_json::Number;
+
 use crate::{
     common::sourcemap::Smid,
     eval::{
@@ -14,7 +16,7 @@ use crate::{
 
 use super::{
     force::SeqNumList,
-    support::{collect_num_list, machine_return_num_list},
+    support::{collect_numbers, exact_num_ord, machine_return_numbers},
     syntax::{
         dsl::{app_bif, force, lambda, lref},
         LambdaForm,
@@ -55,14 +57,16 @@ impl StgIntrinsic for RunningMax {
         _emitter: &mut dyn Emitter,
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
-        let nums = collect_num_list(machine, view, args[0].clone())?;
-        let mut result = Vec::with_capacity(nums.len());
-        let mut acc = f64::NEG_INFINITY;
-        for &n in &nums {
-            acc = acc.max(n);
+        let nums = collect_numbers(machine, view, args[0].clone())?;
+        let mut result: Vec<Number> = Vec::with_capacity(nums.len());
+        for n in nums {
+            let acc = match result.last() {
+                Some(acc) if exact_num_ord(acc, &n).is_ge() => acc.clone(),
+                _ => n,
+            };
             result.push(acc);
         }
-        machine_return_num_list(machine, view, result)
+        machine_return_numbers(machine, view, result)
     }
 }
 
@@ -88,14 +92,16 @@ impl StgIntrinsic for RunningMin {
         _emitter: &mut dyn Emitter,
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
-        let nums = collect_num_list(machine, view, args[0].clone())?;
-        let mut result = Vec::with_capacity(nums.len());
-        let mut acc = f64::INFINITY;
-        for &n in &nums {
-            acc = acc.min(n);
+        let nums = collect_numbers(machine, view, args[0].clone())?;
+        let mut result: Vec<Number> = Vec::with_capacity(nums.len());
+        for n in nums {
+            let acc = match result.last() {
+                Some(acc) if exact_num_ord(acc, &n).is_le() => acc.clone(),
+                _ => n,
+            };
             result.push(acc);
         }
-        machine_return_num_list(machine, view, result)
+        machine_return_numbers(machine, view, result)
     }
 }
 
@@ -121,14 +127,22 @@ impl StgIntrinsic for RunningSum {
         _emitter: &mut dyn Emitter,
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
-        let nums = collect_num_list(machine, view, args[0].clone())?;
-        let mut result = Vec::with_capacity(nums.len());
-        let mut acc = 0.0_f64;
-        for &n in &nums {
-            acc += n;
-            result.push(acc);
+        let nums = collect_numbers(machine, view, args[0].clone())?;
+        let mut result: Vec<Number> = Vec::with_capacity(nums.len());
+        let mut acc = Number::from(0);
+        for n in nums {
+            acc = match (acc.as_i64(), n.as_i64()) {
+                (Some(l), Some(r)) => l.checked_add(r).map(Number::from),
+                _ => Number::from_f64(
+                    acc.as_f64().unwrap_or(f64::NAN) + n.as_f64().unwrap_or(f64::NAN),
+                ),
+            }
+            .ok_or_else(|| {
+                ExecutionError::NumericRangeError(machine.annotation(), acc.clone(), n.clone())
+            })?;
+            result.push(acc.clone());
         }
-        machine_return_num_list(machine, view, result)
+        machine_return_numbers(machine, view, result)
     }
 }
 
diff --git a/src/eval/stg/support.rs b/src/eval/stg/support.rs
index 8ee86a8..3a68695 100644
--- a/src/eval/stg/support.rs
+++ b/src/eval/stg/support.rs
@@ -618,12 +618,36 @@ pub fn collect_num_list(
     view: MutatorHeapView<'_>,
     list_ref: Ref,
 ) -> Result<Vec<f64>, ExecutionError> {
+    let numbers = collect_numbers(machine, view, list_ref)?;
+    Ok(numbers.iter().map(|n| n.as_f64().unwrap_or(0.0)).collect())
+}
+
+/// Total order on numbers, exact across integers and floats
+pub fn exact_num_ord(x: &Number, y: &Number) -> std::cmp::Ordering {
+    fn whole(n: &Number) -> i128 {
+        n.as_i64()
+            .map(i128::from)
+            .or_else(|| n.as_u64().map(i128::from))
+            .unwrap_or_else(|| n.as_f64().unwrap_or(0.0) as i128)
+    }
+    x.as_f64()
+        .partial_cmp(&y.as_f64())
+        .unwrap_or(std::cmp::Ordering::Equal)
+        .then_with(|| whole(x).cmp(&whole(y)))
+}
+
+/// Collect a list of numbers without changing their representation
+pub fn collect_numbers(
+    machine: &mut dyn IntrinsicMachine,
+    view: MutatorHeapView<'_>,
+    list_ref: Ref,
+) -> Result<Vec<Number>, ExecutionError> {
     let smid = machine.annotation();
     let items = data_list_arg(machine, view, list_ref)?;
     let mut numbers = Vec::new();
     for item in &items {
         match machine.value_native(view, item) {
-            Some(Native::Num(n)) => numbers.push(n.as_f64().unwrap_or(0.0)),
+            Some(Native::Num(n)) => numbers.push(n),
             Some(_) => {
                 return Err(ExecutionError::NotValue(
                     smid,
@@ -670,10 +694,22 @@ pub fn machine_return_num_list(
     machine: &mut dyn IntrinsicMachine,
     view: MutatorHeapView,
     list: Vec<f64>,
+) -> Result<(), ExecutionError> {
+    let numbers = list
+        .into_iter()
+        .map(|x| Number::from_f64(x).unwrap_or_else(|| Number::from(0)))
+        .collect();
+    machine_return_numbers(machine, view, numbers)
+}
+
+/// Return a list of numbers, each as it is
+pub fn machine_return_numbers(
+    machine: &mut dyn IntrinsicMachine,
+    view: MutatorHeapView,
+    list: Vec<Number>,
 ) -> Result<(), ExecutionError> {
     let mut items = Vec::with_capacity(list.len());
-    for item in list {
-        let n = Number::from_f64(item).unwrap_or_else(|| Number::from(0));
+    for n in list {
         let native = machine.native_value(view, Native::Num(n))?;
         items.push(machine.data_value(view, DataConstructor::BoxedNumber.tag(), &[native])?);
     }
-- 
2.43.0


From 7ed7baa3b071f4bdd3e7fa74ca08acf4ca6efb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 03/58] fix: demand analysis no longer forces values that may
 not be needed

List elements, block values, metadata, lookup fallbacks, lambda bodies and
the bindings of unused lets were treated as strict, and demand signatures
were shared between all functions of the same name, so evaluation could
fail on (or diverge in) an expression whose value was never needed.
---
 src/core/analyse_demand.rs | 85 +++++++++++++++++++++++++++++++-------
 src/eval/stg/compiler.rs   |  9 ++--
 2 files changed, 76 insertions(+), 18 deletions(-)

diff --git a/src/core/analyse_demand.rs b/src/core/analyse_demand.rs
index 10c8e58..e04c3c9 100644
--- a/src/core/analyse_demand.rs
+++ b/src/core/analyse_demand.rs
@@ -7,12 +7,12 @@
 //! Also produces a signature side-table mapping lambda body pointers
 //! to per-argument demand vectors for use by the STG compiler.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 
 use crate::common::sourcemap::Smid;
 use crate::core::binding::{CoreBinding, Scope, Var};
-use crate::core::demand::{Cardinality, Demand};
+use crate::core::demand::{Cardinality, Demand, Strictness};
 use crate::core::expr::*;
 use crate::eval::intrinsics;
 
@@ -307,6 +307,23 @@ fn merge_envs(a: &DemandEnv, b: &DemandEnv) -> DemandEnv {
     result
 }
 
+/// Demands placed by an expression that need not be evaluated when its
+/// context is: constructor fields and the bodies of lambdas. Uses still
+/// count towards cardinality, but nothing is strict.
+fn lazy_env(env: DemandEnv) -> DemandEnv {
+    env.into_iter()
+        .map(|(key, demand)| {
+            (
+                key,
+                Demand {
+                    strictness: Strictness::Lazy,
+                    ..demand
+                },
+            )
+        })
+        .collect()
+}
+
 /// The demand analyser.
 pub struct DemandAnalyser {
     /// Intrinsic seed signatures.
@@ -315,6 +332,9 @@ pub struct DemandAnalyser {
     signatures: SignatureTable,
     /// Name-keyed signatures for user function calls.
     named_signatures: NamedSignatureTable,
+    /// Names also bound to something without a known signature (a
+    /// parameter or a non-lambda), for which nothing can be assumed.
+    unknown_names: HashSet<String>,
 }
 
 impl Default for DemandAnalyser {
@@ -329,6 +349,27 @@ impl DemandAnalyser {
             intrinsic_sigs: build_intrinsic_signatures(),
             signatures: HashMap::new(),
             named_signatures: HashMap::new(),
+            unknown_names: HashSet::new(),
+        }
+    }
+
+    /// Record the signature (if known) of a function bound to `name`.
+    ///
+    /// The table is keyed by name alone, so where several bindings share a
+    /// name it must only promise what holds for all of them.
+    fn record_name(&mut self, name: &str, sig: Option<DemandSignature>) {
+        match (sig, self.named_signatures.get_mut(name)) {
+            (Some(sig), None) => {
+                self.named_signatures.insert(name.to_string(), sig);
+            }
+            (Some(sig), Some(known)) if known.len() == sig.len() => {
+                for (k, d) in known.iter_mut().zip(sig) {
+                    *k = k.lub(d);
+                }
+            }
+            _ => {
+                self.unknown_names.insert(name.to_string());
+            }
         }
     }
 
@@ -337,6 +378,9 @@ impl DemandAnalyser {
     /// name-keyed signature table for user function calls.
     pub fn analyse(mut self, expr: &RcExpr) -> (RcExpr, SignatureTable, NamedSignatureTable) {
         let (new_expr, _env) = self.analyse_expr(expr);
+        for name in &self.unknown_names {
+            self.named_signatures.remove(name);
+        }
         (new_expr, self.signatures, self.named_signatures)
     }
 
@@ -368,7 +412,7 @@ impl DemandAnalyser {
                 let new_fb = if let Some(fb) = fallback {
                     let (new_fb, fb_env) = self.analyse_expr(fb);
                     // Fallback is lazy+once: merge with main env.
-                    env = merge_envs(&env, &fb_env);
+                    env = merge_envs(&env, &lazy_env(fb_env));
                     Some(new_fb)
                 } else {
                     None
@@ -383,7 +427,7 @@ impl DemandAnalyser {
                 let mut new_xs = Vec::with_capacity(xs.len());
                 for x in xs {
                     let (new_x, x_env) = self.analyse_expr(x);
-                    env = merge_envs(&env, &x_env);
+                    env = merge_envs(&env, &lazy_env(x_env));
                     new_xs.push(new_x);
                 }
                 (RcExpr::from(Expr::List(*s, new_xs)), env)
@@ -394,7 +438,7 @@ impl DemandAnalyser {
                 let mut new_entries = Vec::new();
                 for (k, v) in block_map.iter() {
                     let (new_v, v_env) = self.analyse_expr(v);
-                    env = merge_envs(&env, &v_env);
+                    env = merge_envs(&env, &lazy_env(v_env));
                     new_entries.push((k.clone(), new_v));
                 }
                 (
@@ -406,7 +450,7 @@ impl DemandAnalyser {
             Expr::Meta(s, e, m) => {
                 let (new_e, e_env) = self.analyse_expr(e);
                 let (new_m, m_env) = self.analyse_expr(m);
-                let env = merge_envs(&e_env, &m_env);
+                let env = merge_envs(&e_env, &lazy_env(m_env));
                 (RcExpr::from(Expr::Meta(*s, new_e, new_m)), env)
             }
 
@@ -415,7 +459,7 @@ impl DemandAnalyser {
                 let mut new_xs = Vec::with_capacity(xs.len());
                 for x in xs {
                     let (new_x, x_env) = self.analyse_expr(x);
-                    env = merge_envs(&env, &x_env);
+                    env = merge_envs(&env, &lazy_env(x_env));
                     new_xs.push(new_x);
                 }
                 (RcExpr::from(Expr::ArgTuple(*s, new_xs)), env)
@@ -615,6 +659,12 @@ impl DemandAnalyser {
                 && binding_demand.cardinality != Cardinality::Unknown
             {
                 let shifted = unshift_env(&rhs_envs[i]);
+                // A lazy binding's RHS may never be evaluated.
+                let shifted = if binding_demand.strictness == Strictness::Strict {
+                    shifted
+                } else {
+                    lazy_env(shifted)
+                };
                 outer_env = merge_envs(&outer_env, &shifted);
             }
 
@@ -633,13 +683,14 @@ impl DemandAnalyser {
             // blob path never hits this: `inlinable_bindings` are peeled at
             // blob-gen time (`xtask`), so their injected values are already
             // bare `Lam`s here.
-            if let Expr::Lam(_, _, ref lam_scope) = &*peel_meta(&new_rhs_exprs[i]).inner {
-                let key = Rc::as_ptr(&lam_scope.body.inner) as usize;
-                if let Some(sig) = self.signatures.get(&key) {
-                    self.named_signatures
-                        .insert(binding.name.clone(), sig.clone());
+            let sig = match &*peel_meta(&new_rhs_exprs[i]).inner {
+                Expr::Lam(_, _, lam_scope) => {
+                    let key = Rc::as_ptr(&lam_scope.body.inner) as usize;
+                    self.signatures.get(&key).cloned()
                 }
-            }
+                _ => None,
+            };
+            self.record_name(&binding.name, sig);
 
             new_bindings.push(CoreBinding::with_demand(
                 binding.name.clone(),
@@ -659,6 +710,9 @@ impl DemandAnalyser {
     /// Analyse a `Lam` expression.
     fn analyse_lam(&mut self, s: Smid, inl: bool, scope: &LamScope<RcExpr>) -> (RcExpr, DemandEnv) {
         let num_params = scope.pattern.len();
+        for param in &scope.pattern {
+            self.record_name(param, None);
+        }
 
         // Analyse the body
         let (new_body, body_env) = self.analyse_expr(&scope.body);
@@ -677,8 +731,9 @@ impl DemandAnalyser {
         let sig_key = Rc::as_ptr(&new_body.inner) as usize;
         self.signatures.insert(sig_key, sig);
 
-        // The outer env is the body env with scope-0 entries removed
-        let outer_env = unshift_env(&body_env);
+        // The outer env is the body env with scope-0 entries removed; the
+        // lambda itself may never be called
+        let outer_env = lazy_env(unshift_env(&body_env));
 
         let new_scope = Scope {
             pattern: scope.pattern.clone(),
diff --git a/src/eval/stg/compiler.rs b/src/eval/stg/compiler.rs
index 0447329..2136d2a 100644
--- a/src/eval/stg/compiler.rs
+++ b/src/eval/stg/compiler.rs
@@ -1175,9 +1175,12 @@ impl ProtoSyntax for ProtoAppGroup {
                     .map(|v| v.as_slice())
             })
             .or_else(|| {
-                callee_name
-                    .and_then(|name| compiler.prelude_demand_sigs.get(name))
-                    .map(|v| v.as_slice())
+                // only a free variable is certain to be the prelude's own
+                match &*self.f.inner {
+                    Expr::Var(_, Var::Free(name)) => compiler.prelude_demand_sigs.get(name),
+                    _ => None,
+                }
+                .map(|v| v.as_slice())
             });
 
         // Detect self-recursive call: callee name matches the
-- 
2.43.0


From 3250d2a2cc85d508254251436d8bf512c241ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 04/58] fix: integer formats write 64-bit integers exactly

---
 src/eval/stg/printf.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eval/stg/printf.rs b/src/eval/stg/printf.rs
index 659a7e6..0a85858 100644
--- a/src/eval/stg/printf.rs
+++ b/src/eval/stg/printf.rs
@@ -369,7 +369,13 @@ fn write_numeric(
                     }
                 },
                 _ => {
-                    if let Some(f) = num.as_f64() {
+                    // Integers are written as such: not every 64-bit
+                    // integer survives conversion to a float.
+                    if let (Some(i), None) = (num.as_i64(), precision) {
+                        write_using!($flags, "", precision, i)
+                    } else if let (Some(u), None) = (num.as_u64(), precision) {
+                        write_using!($flags, "", precision, u)
+                    } else if let Some(f) = num.as_f64() {
                         write_using!($flags, "", precision, f)
                     } else {
                         Err(PrintfError::ConversionError)
-- 
2.43.0


From 212d41e74ed6669f3ae6c93383ae035d403bc694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 05/58] fix: an oversized width or precision in a format is an
 error, not a crash

---
 src/eval/stg/printf.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/eval/stg/printf.rs b/src/eval/stg/printf.rs
index 0a85858..066acb8 100644
--- a/src/eval/stg/printf.rs
+++ b/src/eval/stg/printf.rs
@@ -149,7 +149,11 @@ fn parse_width(mut sub: &[u8]) -> (usize, &[u8]) {
     while let Some(&ch) = sub.first() {
         match ch {
             // https://rust-malaysia.github.io/code/2020/07/11/faster-integer-parsing.html#the-bytes-solution
-            b'0'..=b'9' => width = width * 10 + (ch & 0x0f) as usize,
+            b'0'..=b'9' => {
+                width = width
+                    .saturating_mul(10)
+                    .saturating_add((ch & 0x0f) as usize)
+            }
             _ => break,
         }
         sub = next_char(sub);
@@ -413,6 +417,13 @@ pub fn fmt(
 ) -> Result<String, PrintfError> {
     let mut output = String::new();
     if let Some(printf_spec) = parse_format(fmt_string) {
+        // The platform formatter panics on larger fields.
+        if printf_spec.width.max(printf_spec.precision.unwrap_or(0)) > u16::MAX as usize {
+            return Err(PrintfError::InvalidFormatString(format!(
+                "'{fmt_string}' has a width or precision greater than {}",
+                u16::MAX
+            )));
+        }
         match nat {
             Native::Sym(id) => {
                 let string = pool.resolve(*id);
-- 
2.43.0


From 3bf2ecdab0e90c03ce558a585fe50996d5af42b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 06/58] fix: str.dq-escape writes one backslash per backslash

---
 lib/prelude.eu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index b597d58..3b597cd 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -1156,7 +1156,7 @@ str: {
 
   ` { doc: "dq-escape(s) - escape string for use inside double quotes in shell commands. Escapes backslash, dollar, backtick, and double quote."
       type: s"string → string" }
-  dq-escape(s): s replace(c"\\\\", c"\\\\\\\\") replace("[$]", c"\\$") replace("[`]", c"\\`") replace(ch.dq, [c"\\", ch.dq] join-on(""))
+  dq-escape(s): s replace(c"\\\\", c"\\\\") replace("[$]", c"\\$") replace("[`]", c"\\`") replace(ch.dq, [c"\\", ch.dq] join-on(""))
 }
 
 ##
-- 
2.43.0


From 3250f76d77325ad3f532ab16606587b95a4d292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 07/58] fix: str.join accepts a computed separator

---
 src/eval/stg/string.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eval/stg/string.rs b/src/eval/stg/string.rs
index 65ddff3..bdb7a4a 100644
--- a/src/eval/stg/string.rs
+++ b/src/eval/stg/string.rs
@@ -154,9 +154,13 @@ impl StgIntrinsic for Join {
                 unbox_str(
                     local(2),
                     // [unbox-sep] [sl] [l] [s]
-                    let_(
-                        vec![value(call::bif::join(lref(1), lref(0)))],
-                        data(DataConstructor::BoxedString.tag(), vec![lref(0)]),
+                    force(
+                        local(0),
+                        // [sep] [unbox-sep] [sl] [l] [s]
+                        let_(
+                            vec![value(call::bif::join(lref(2), lref(0)))],
+                            data(DataConstructor::BoxedString.tag(), vec![lref(0)]),
+                        ),
                     ),
                 ),
             ),
-- 
2.43.0


From b3406c1bc5deb1180bef82f5986d1c5dabae33fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:12 +0000
Subject: [PATCH 08/58] fix: a c-string literal part may start with an escaped
 brace or backslash

---
 src/syntax/rowan/string_lex.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index 96edbdd..751c980 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -368,6 +368,10 @@ impl<'text> Iterator for CStringPatternLexer<'text> {
             }
             _ => {
                 // Regular literal content (includes handling backslash escapes)
+                if ch == '\\' {
+                    // the escaped character belongs to the literal
+                    self.bump();
+                }
                 Some(self.literal_content(start))
             }
         }
-- 
2.43.0


From 106ec4880423a936e4fc764df625e54e8debfec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 09/58] fix: a brace after an interpolation in a string is not
 lost

---
 src/syntax/rowan/string_lex.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index 751c980..ec20fd9 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -150,15 +150,10 @@ impl<'text> Iterator for StringPatternLexer<'text> {
             }
             '}' => {
                 if self.in_interpolation {
-                    // Check for escaped }}
-                    if let Some(&'}') = self.peek() {
-                        Some(self.escaped_close(start))
-                    } else {
-                        // End interpolation
-                        self.in_interpolation = false;
-                        self.in_format_spec = false;
-                        Some((CLOSE_BRACE, self.make_span(start, self.position), "}"))
-                    }
+                    // End interpolation (there are no escapes within one)
+                    self.in_interpolation = false;
+                    self.in_format_spec = false;
+                    Some((CLOSE_BRACE, self.make_span(start, self.position), "}"))
                 } else {
                     // Outside interpolation, check for escaped }}
                     if let Some(&'}') = self.peek() {
-- 
2.43.0


From e0e0b5786876cb4fd743d65e499e119323ea93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 10/58] fix: element-wise array operations accept scalar
 operands

---
 src/eval/stg/array.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/eval/stg/array.rs b/src/eval/stg/array.rs
index 942b9ae..1540db3 100644
--- a/src/eval/stg/array.rs
+++ b/src/eval/stg/array.rs
@@ -537,6 +537,10 @@ impl StgIntrinsic for ArrayAdd {
         "ARRAY.ADD"
     }
 
+    fn wrapper(&self, _annotation: Smid) -> LambdaForm {
+        binop_wrapper(self.index())
+    }
+
     fn execute(
         &self,
         machine: &mut dyn IntrinsicMachine,
@@ -558,6 +562,10 @@ impl StgIntrinsic for ArraySub {
         "ARRAY.SUB"
     }
 
+    fn wrapper(&self, _annotation: Smid) -> LambdaForm {
+        binop_wrapper(self.index())
+    }
+
     fn execute(
         &self,
         machine: &mut dyn IntrinsicMachine,
@@ -579,6 +587,10 @@ impl StgIntrinsic for ArrayMul {
         "ARRAY.MUL"
     }
 
+    fn wrapper(&self, _annotation: Smid) -> LambdaForm {
+        binop_wrapper(self.index())
+    }
+
     fn execute(
         &self,
         machine: &mut dyn IntrinsicMachine,
@@ -600,6 +612,10 @@ impl StgIntrinsic for ArrayDiv {
         "ARRAY.DIV"
     }
 
+    fn wrapper(&self, _annotation: Smid) -> LambdaForm {
+        binop_wrapper(self.index())
+    }
+
     fn execute(
         &self,
         machine: &mut dyn IntrinsicMachine,
@@ -786,6 +802,31 @@ fn f64_vec_to_list(
     super::support::machine_return_num_list(machine, view, values.to_vec())
 }
 
+/// Wrapper for element-wise operations: either operand may be a boxed number
+fn binop_wrapper(index: usize) -> LambdaForm {
+    let bif_index: u8 = index.try_into().unwrap();
+    lambda(
+        2, // [a b]
+        unbox_num(
+            local(0),
+            // [a-inner] [a b]
+            force(
+                local(0),
+                // [a-native] [a-inner] [a b]
+                unbox_num(
+                    local(3),
+                    // [b-inner] [a-native] [a-inner] [a b]
+                    force(
+                        local(0),
+                        // [b-native] [b-inner] [a-native] [a-inner] [a b]
+                        app_bif(bif_index, vec![lref(2), lref(0)]),
+                    ),
+                ),
+            ),
+        ),
+    )
+}
+
 /// Dispatch a binary operation on arrays, supporting array+array and array+scalar
 pub(crate) fn array_binop<F: Fn(f64, f64) -> f64>(
     machine: &mut dyn IntrinsicMachine,
-- 
2.43.0


From 3c664d57543bee7a8847261084b6564e043f4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:40 +0000
Subject: [PATCH 11/58] fix: vec.nth reports a negative index

---
 src/eval/stg/vec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eval/stg/vec.rs b/src/eval/stg/vec.rs
index c1a2a17..f7384b7 100644
--- a/src/eval/stg/vec.rs
+++ b/src/eval/stg/vec.rs
@@ -121,6 +121,12 @@ impl StgIntrinsic for VecNth {
     ) -> Result<(), ExecutionError> {
         let native_n = resolve_native_unboxing(machine, view, &args[0])?;
         let n = match &native_n {
+            Native::Num(num) if num.as_f64().is_some_and(|v| v < 0.0) => {
+                return Err(ExecutionError::Panic(
+                    Smid::default(),
+                    format!("vec.nth: index {num} out of bounds (negative)"),
+                ))
+            }
             Native::Num(num) => num
                 .as_u64()
                 .map(|v| v as usize)
-- 
2.43.0


From faa3b1d218b5f34520f47d1f642550679ad0c60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:40 +0000
Subject: [PATCH 12/58] fix: sets list their symbols by name, not by interning
 order

---
 src/eval/memory/set.rs | 13 ++++++++++++-
 src/eval/stg/emit.rs   |  2 +-
 src/eval/stg/set.rs    |  4 ++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/eval/memory/set.rs b/src/eval/memory/set.rs
index dda6a45..3d0a824 100644
--- a/src/eval/memory/set.rs
+++ b/src/eval/memory/set.rs
@@ -10,7 +10,7 @@ use ordered_float::OrderedFloat;
 use serde_json::Number;
 
 use super::alloc::StgObject;
-use super::symbol::SymbolId;
+use super::symbol::{SymbolId, SymbolPool};
 
 /// A hashable primitive value that can be stored in a set.
 ///
@@ -157,6 +157,17 @@ impl HeapSet {
         elems.sort();
         elems
     }
+
+    /// Return elements in order, with symbols ordered by name (interned
+    /// ids reflect only the order in which symbols were first seen).
+    pub fn elements_by_name(&self, pool: &SymbolPool) -> Vec<&Primitive> {
+        let mut elems: Vec<_> = self.elements.iter().collect();
+        elems.sort_by(|a, b| match (a, b) {
+            (Primitive::Sym(a), Primitive::Sym(b)) => pool.resolve(*a).cmp(pool.resolve(*b)),
+            _ => a.cmp(b),
+        });
+        elems
+    }
 }
 
 impl Clone for HeapSet {
diff --git a/src/eval/stg/emit.rs b/src/eval/stg/emit.rs
index 3247201..86a9a41 100644
--- a/src/eval/stg/emit.rs
+++ b/src/eval/stg/emit.rs
@@ -114,7 +114,7 @@ fn emit_set(
         emitter,
         Event::OutputSequenceStart(metadata.clone()),
     )?;
-    for elem in set.sorted_elements() {
+    for elem in set.elements_by_name(machine.symbol_pool()) {
         let prim = set_primitive_to_render_primitive(elem, machine);
         emit_scalar(machine, emitter, &RenderMetadata::empty(), &prim)?;
     }
diff --git a/src/eval/stg/set.rs b/src/eval/stg/set.rs
index 5c30fa3..72ad1ff 100644
--- a/src/eval/stg/set.rs
+++ b/src/eval/stg/set.rs
@@ -165,7 +165,7 @@ impl StgIntrinsic for SetToList {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let set = set_arg(machine, view, &args[0])?;
-        let sorted = set.sorted_elements();
+        let sorted = set.elements_by_name(machine.symbol_pool());
 
         // Box each element and assemble the (sorted) list via the neutral ABI.
         let mut items = Vec::with_capacity(sorted.len());
@@ -437,7 +437,7 @@ impl StgIntrinsic for SetSample {
 
         let floats = collect_num_list(machine, view, args[0].clone())?;
         let s = set_arg(machine, view, &args[1])?;
-        let elements = s.sorted_elements();
+        let elements = s.elements_by_name(machine.symbol_pool());
         let len = elements.len();
         let count = floats.len().min(len);
 
-- 
2.43.0


From db6e4d7d2ebe3106a3bf428b26618e55377a0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 13/58] fix: vec.shuffle of an empty vec terminates

---
 lib/prelude.eu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index 3b597cd..3c2bddf 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -2076,7 +2076,7 @@ vec: {
   ` { doc: "`vec.shuffle(v)` - random monad action: return vec `v` in random order."
       type: s"vec → any → {..}" }
   shuffle(v, stream): {
-    needed: (v vec.len) - 1
+    needed: max(0, (v vec.len) - 1)
     floats: (stream random.as-list) take(needed)
     value: v shuffle-raw(floats)
     rest: stream-advance(needed, stream)
-- 
2.43.0


From 8607986cc9744f003dcfd1dba20360d1af085f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 14/58] fix: random.int covers its whole range, also where the
 bound is held as a float

---
 src/eval/stg/stream_prng.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/eval/stg/stream_prng.rs b/src/eval/stg/stream_prng.rs
index a01e362..39993bc 100644
--- a/src/eval/stg/stream_prng.rs
+++ b/src/eval/stg/stream_prng.rs
@@ -103,7 +103,7 @@ fn machine_return_int_stream(
     int_val: u64,
     stream_state: u64,
 ) -> Result<(), ExecutionError> {
-    let num = machine.native_value(view, Native::Num(Number::from(int_val as i64)))?;
+    let num = machine.native_value(view, Native::Num(Number::from(int_val)))?;
     let boxed = machine.data_value(view, DataConstructor::BoxedNumber.tag(), &[num])?;
     let stream = machine.native_value(view, Native::Prng(stream_state))?;
     machine.return_closure_list(view, vec![boxed, stream])
@@ -246,7 +246,17 @@ impl StgIntrinsic for StreamInt {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let n_num = num_arg(machine, view, &args[0])?;
-        let n = n_num.as_u64().unwrap_or(1).max(1);
+        let n = n_num
+            .as_u64()
+            .or_else(|| {
+                // a whole number may be held as a float
+                n_num
+                    .as_f64()
+                    .filter(|f| *f >= 1.0 && f.fract() == 0.0)
+                    .map(|f| f as u64)
+            })
+            .unwrap_or(1)
+            .max(1);
         let state = prng_arg(machine, view, &args[1])?;
         let (next_state, z) = splitmix64(state);
         let int_val = z % n;
-- 
2.43.0


From d70709fa801889901ef6ac4c6481c8853083ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 15/58] fix: demand signatures call only arguments strict that
 are always evaluated

lookup-or's default, function arguments of map/filter/fold and other lazily
used prelude arguments were evaluated early, so an unneeded failing or
infinite value could fail a program; partial applications evaluated theirs.
---
 src/core/analyse_demand.rs | 117 ++++++++++++++++---------------------
 src/eval/intrinsics.rs     |   4 +-
 src/eval/stg/compiler.rs   |   4 +-
 3 files changed, 55 insertions(+), 70 deletions(-)

diff --git a/src/core/analyse_demand.rs b/src/core/analyse_demand.rs
index e04c3c9..a8cb01e 100644
--- a/src/core/analyse_demand.rs
+++ b/src/core/analyse_demand.rs
@@ -104,17 +104,10 @@ pub fn build_intrinsic_signatures() -> HashMap<String, DemandSignature> {
         vec![Demand::strict_once(), Demand::lazy_once()],
     );
 
-    // LOOKUPOR: obj strict+once, key strict+once, fallback lazy+once, (extra arg)
-    if let Some(sig) = sigs.get_mut("LOOKUPOR") {
-        // LOOKUPOR has 4 args: object(0), key(1), fallback(2), extra(3)
-        // object and key are strict; fallback is lazy+once
-        if sig.len() >= 3 {
-            sig[2] = Demand::lazy_once();
-        }
-    }
-    if let Some(sig) = sigs.get_mut("LOOKUPOR#") {
-        if sig.len() >= 3 {
-            sig[2] = Demand::lazy_once();
+    // LOOKUPOR(key, default, obj): key and object strict+once, default lazy+once
+    for name in ["LOOKUPOR", "LOOKUPOR#"] {
+        if let Some(sig) = sigs.get_mut(name) {
+            sig[1] = Demand::lazy_once();
         }
     }
 
@@ -150,31 +143,35 @@ pub fn build_prelude_signatures() -> HashMap<String, DemandSignature> {
     let sm = Demand::strict_multi;
     let lm = Demand::lazy_multi;
 
-    // List operations — strict in all arguments
-    // map(f, l): f applied to each element, l traversed
-    sigs.insert("map".into(), vec![sm(), sm()]);
-    // map2(f, l, m): zip-with
-    sigs.insert("map2".into(), vec![sm(), sm(), sm()]);
-    // filter(p?, l): predicate applied, list traversed
-    sigs.insert("filter".into(), vec![sm(), sm()]);
-    // foldl(op, i, l): all args needed
-    sigs.insert("foldl".into(), vec![sm(), sm(), sm()]);
-    // foldr(op, i, l): all args needed
-    sigs.insert("foldr".into(), vec![sm(), sm(), sm()]);
-    // take(n, l): count and list both needed
-    sigs.insert("take".into(), vec![sm(), sm()]);
+    // Only what is evaluated on every path may be marked strict: a function
+    // argument is not needed for an empty list, and lazily consumed data may
+    // not be needed at all.
+
+    // List operations
+    // map(f, l): list traversed, f only applied to its elements
+    sigs.insert("map".into(), vec![lm(), sm()]);
+    // map2(f, l, m): zip-with; the second list may not be reached
+    sigs.insert("map2".into(), vec![lm(), sm(), lm()]);
+    // filter(p?, l): list traversed
+    sigs.insert("filter".into(), vec![lm(), sm()]);
+    // foldl(op, i, l): list traversed
+    sigs.insert("foldl".into(), vec![lm(), lm(), sm()]);
+    // foldr(op, i, l): list traversed
+    sigs.insert("foldr".into(), vec![lm(), lm(), sm()]);
+    // take(n, l): the list is not needed for a zero count
+    sigs.insert("take".into(), vec![sm(), lm()]);
     // drop(n, l): count and list both needed
     sigs.insert("drop".into(), vec![sm(), sm()]);
     // nth(n, l): index and list both needed
     sigs.insert("nth".into(), vec![sm(), sm()]);
     // reverse(l): list needed
     sigs.insert("reverse".into(), vec![sm()]);
-    // append(l1, l2): both lists needed
-    sigs.insert("append".into(), vec![sm(), sm()]);
-    // zip-with(f, a, b): all needed
-    sigs.insert("zip-with".into(), vec![sm(), sm(), sm()]);
-    // zip(a, b): both needed (zip = zip-with(pair))
-    sigs.insert("zip".into(), vec![sm(), sm()]);
+    // append(l1, l2): the second list is the lazy remainder
+    sigs.insert("append".into(), vec![sm(), lm()]);
+    // zip-with(f, a, b): as map2
+    sigs.insert("zip-with".into(), vec![lm(), sm(), lm()]);
+    // zip(a, b): as map2 (zip = zip-with(pair))
+    sigs.insert("zip".into(), vec![sm(), lm()]);
     // count(l): list traversed
     sigs.insert("count".into(), vec![sm()]);
     // sum(l): list traversed
@@ -185,30 +182,27 @@ pub fn build_prelude_signatures() -> HashMap<String, DemandSignature> {
     // Strictness here would cause infinite forcing for recursive list
     // construction (iterate, map, scanl, etc.) over infinite lists.
     sigs.insert("cons".into(), vec![lm(), lm()]);
-    // snoc(x, l): both needed
-    sigs.insert("snoc".into(), vec![sm(), sm()]);
-    // mapcat(f, l): catenation applied via compose, but f is strict
-    sigs.insert("mapcat".into(), vec![sm()]);
-    // cross(f, xs, ys): all needed
-    sigs.insert("cross".into(), vec![sm(), sm(), sm()]);
-    // interleave(a, b): both needed
-    sigs.insert("interleave".into(), vec![sm(), sm()]);
-
-    // take-while / drop-while: predicate and list both strict
-    sigs.insert("take-while".into(), vec![sm(), sm()]);
-    sigs.insert("drop-while".into(), vec![sm(), sm()]);
+    // snoc(x, l): the list is traversed
+    sigs.insert("snoc".into(), vec![lm(), sm()]);
+    // mapcat(f): composes f, which is not applied yet
+    sigs.insert("mapcat".into(), vec![lm()]);
+    // cross(f, xs, ys): only the first list is always traversed
+    sigs.insert("cross".into(), vec![lm(), sm(), lm()]);
+    // interleave(a, b): the second list is the lazy remainder
+    sigs.insert("interleave".into(), vec![sm(), lm()]);
+
+    // take-while / drop-while: list traversed
+    sigs.insert("take-while".into(), vec![lm(), sm()]);
+    sigs.insert("drop-while".into(), vec![lm(), sm()]);
 
     // Sorting
-    sigs.insert("sort-by".into(), vec![sm(), sm(), sm()]);
-    sigs.insert("sort-by-num".into(), vec![sm()]);
-    sigs.insert("sort-by-str".into(), vec![sm()]);
+    sigs.insert("sort-by".into(), vec![lm(), lm(), sm()]);
     sigs.insert("sort-nums".into(), vec![sm()]);
     sigs.insert("sort-strs".into(), vec![sm()]);
 
     // Grouping
-    sigs.insert("group-by".into(), vec![sm(), sm()]);
-    sigs.insert("discriminate".into(), vec![sm(), sm()]);
-    sigs.insert("group-consecutive-by".into(), vec![sm(), sm()]);
+    sigs.insert("group-by".into(), vec![lm(), sm()]);
+    sigs.insert("group-consecutive-by".into(), vec![lm(), sm()]);
 
     // Numeric — strict in all args
     sigs.insert("abs".into(), vec![sm()]);
@@ -223,15 +217,15 @@ pub fn build_prelude_signatures() -> HashMap<String, DemandSignature> {
     sigs.insert("quot".into(), vec![sm(), sm()]);
     sigs.insert("rem".into(), vec![sm(), sm()]);
 
-    // Combinators — strict in function arg, lazy in data args
-    sigs.insert("compose".into(), vec![sm(), sm(), sm()]);
-    sigs.insert("flip".into(), vec![sm(), sm(), sm()]);
+    // Combinators — strict in the function applied first, lazy in data args
+    sigs.insert("compose".into(), vec![sm(), lm(), lm()]);
+    sigs.insert("flip".into(), vec![sm(), lm(), lm()]);
     sigs.insert("identity".into(), vec![sm()]);
     sigs.insert("apply".into(), vec![sm(), sm()]);
 
     // Conditionals — condition strict, branches lazy
     sigs.insert("then".into(), vec![lm(), lm(), sm()]);
-    sigs.insert("when".into(), vec![sm(), sm(), sm()]);
+    sigs.insert("when".into(), vec![sm(), lm(), lm()]);
 
     // Lookup functions — strict in key/object args
     sigs.insert("has".into(), vec![sm(), sm()]);
@@ -239,31 +233,20 @@ pub fn build_prelude_signatures() -> HashMap<String, DemandSignature> {
     sigs.insert("lookup-in".into(), vec![sm(), sm()]);
     sigs.insert("lookup-or".into(), vec![sm(), lm(), sm()]);
 
-    // Deep operations — strict in key/pattern and block
-    sigs.insert("deep-find".into(), vec![sm(), sm()]);
-    sigs.insert("deep-transform".into(), vec![sm(), sm()]);
-    sigs.insert("deep-query".into(), vec![sm(), sm()]);
-
-    // Head/tail — strict in list
-    sigs.insert("head-or".into(), vec![sm(), sm()]);
-    sigs.insert("tail-or".into(), vec![sm(), sm()]);
+    // Head/tail — strict in list, the default is only a fallback
+    sigs.insert("head-or".into(), vec![lm(), sm()]);
+    sigs.insert("tail-or".into(), vec![lm(), sm()]);
 
     // Rendering
     sigs.insert("render".into(), vec![sm()]);
     sigs.insert("render-as".into(), vec![sm(), sm()]);
     sigs.insert("parse-as".into(), vec![sm(), sm()]);
 
-    // Iterate — strict in initial value, function
-    sigs.insert("iterate".into(), vec![sm(), sm()]);
     // range(b, e)
     sigs.insert("range".into(), vec![sm(), sm()]);
-    // iota(n)
-    sigs.insert("iota".into(), vec![sm()]);
-    // repeat(i)
-    sigs.insert("repeat".into(), vec![sm()]);
 
     // Sliding / windowing
-    sigs.insert("over-sliding-pairs".into(), vec![sm(), sm()]);
+    sigs.insert("over-sliding-pairs".into(), vec![lm(), sm()]);
 
     sigs
 }
diff --git a/src/eval/intrinsics.rs b/src/eval/intrinsics.rs
index 2ceb9c4..4041317 100644
--- a/src/eval/intrinsics.rs
+++ b/src/eval/intrinsics.rs
@@ -56,7 +56,7 @@ lazy_static! {
         Intrinsic { // 1
             name: "LOOKUPOR", // boxed sym
             ty: function(vec![block(), unk(), unk(), unk()]).unwrap(),
-            strict: vec![0, 1],
+            strict: vec![0, 2],
         },
         Intrinsic { // 2
             name: "RENDER",
@@ -252,7 +252,7 @@ lazy_static! {
         Intrinsic { // 39
             name: "LOOKUPOR#",
             ty: function(vec![block(), unk(), unk(), unk()]).unwrap(),
-            strict: vec![0, 1],
+            strict: vec![0, 2],
         },
         Intrinsic { // 40
             name: "CONS",
diff --git a/src/eval/stg/compiler.rs b/src/eval/stg/compiler.rs
index 2136d2a..c799c3f 100644
--- a/src/eval/stg/compiler.rs
+++ b/src/eval/stg/compiler.rs
@@ -1181,7 +1181,9 @@ impl ProtoSyntax for ProtoAppGroup {
                     _ => None,
                 }
                 .map(|v| v.as_slice())
-            });
+            })
+            // a partial application evaluates none of its arguments
+            .filter(|sigs| sigs.len() <= self.args.len());
 
         // Detect self-recursive call: callee name matches the
         // enclosing recursive binding.  The VM will resolve Ref::L
-- 
2.43.0


From 4d08ccd43c4e666a336983bc054a77edc3818b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 16/58] check hook: forced collection cadence under --cfg
 eucalypt_check

---
 src/eval/bytecode/machine.rs | 45 ++++++++++++++++++++++++++++++++++++
 src/lib.rs                   |  2 ++
 2 files changed, 47 insertions(+)

diff --git a/src/eval/bytecode/machine.rs b/src/eval/bytecode/machine.rs
index 58d3524..4037a4c 100644
--- a/src/eval/bytecode/machine.rs
+++ b/src/eval/bytecode/machine.rs
@@ -584,6 +584,14 @@ fn gc_poll(
     if interrupted() {
         return Err(ExecutionError::Interrupted);
     }
+    #[cfg(eucalypt_check)]
+    if check_hooks::gc_every().is_some() {
+        if check_hooks::spend() {
+            gc_collect(state, heap, clock, dump_heap);
+            clock.switch(ThreadOccupation::Mutator);
+        }
+        return Ok(());
+    }
     if heap.policy_requires_collection() {
         gc_collect(state, heap, clock, dump_heap);
         clock.switch(ThreadOccupation::Mutator);
@@ -591,6 +599,37 @@ fn gc_poll(
     Ok(())
 }
 
+/// Forced collection cadence for external checks, which pass
+/// `--cfg eucalypt_check`; absent from every other build.
+#[cfg(eucalypt_check)]
+pub mod check_hooks {
+    use std::cell::Cell;
+
+    thread_local! {
+        static EVERY: Cell<Option<u32>> = const { Cell::new(None) };
+        static BUDGET: Cell<u64> = const { Cell::new(0) };
+    }
+
+    /// Collect every `n` machine steps, at most `budget` times, and at no
+    /// other time while set.
+    pub fn force_gc(n: Option<u32>, budget: u64) {
+        EVERY.with(|e| e.set(n.map(|n| n.max(1))));
+        BUDGET.with(|b| b.set(budget));
+    }
+
+    pub(super) fn gc_every() -> Option<u32> {
+        EVERY.with(Cell::get)
+    }
+
+    pub(super) fn spend() -> bool {
+        BUDGET.with(|b| {
+            let left = b.get();
+            b.set(left.saturating_sub(1));
+            left > 0
+        })
+    }
+}
+
 /// Enter a WHNF sub-evaluation: suspend the caller's continuation stack and
 /// stash its `current` value (both become GC roots for the sub-run), seat
 /// `value` as the new `current`, and clear the termination / yield flags.
@@ -3235,6 +3274,8 @@ impl<'a> BytecodeMachine<'a> {
     pub fn run(&mut self, limit: Option<usize>) -> Result<Option<u8>, ExecutionError> {
         self.clock.switch(ThreadOccupation::Mutator);
         let gc_check_freq: u32 = 500;
+        #[cfg(eucalypt_check)]
+        let gc_check_freq = check_hooks::gc_every().unwrap_or(gc_check_freq);
         let mut gc_countdown: u32 = gc_check_freq;
 
         while !self.state.terminated {
@@ -3686,6 +3727,8 @@ impl BytecodeMachine<'_> {
     fn drive_whnf(&mut self) -> Result<(), ExecutionError> {
         self.clock.switch(ThreadOccupation::Mutator);
         let gc_check_freq: u32 = 500;
+        #[cfg(eucalypt_check)]
+        let gc_check_freq = check_hooks::gc_every().unwrap_or(gc_check_freq);
         let mut gc_countdown: u32 = gc_check_freq;
         while !self.state.terminated {
             gc_countdown -= 1;
@@ -4478,6 +4521,8 @@ impl BcBifContext<'_, '_> {
     fn drive_to_whnf(&mut self) -> Result<(), ExecutionError> {
         let mut null = NullEmitter;
         let gc_check_freq: u32 = 500;
+        #[cfg(eucalypt_check)]
+        let gc_check_freq = check_hooks::gc_every().unwrap_or(gc_check_freq);
         let mut gc_countdown: u32 = gc_check_freq;
         while !self.state.terminated {
             gc_countdown -= 1;
diff --git a/src/lib.rs b/src/lib.rs
index 50812f6..e6cb3bb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,6 @@
 #![allow(non_local_definitions)]
+// `--cfg eucalypt_check` is passed by external checks only
+#![allow(unexpected_cfgs)]
 extern crate codespan;
 extern crate codespan_reporting;
 extern crate indexmap;
-- 
2.43.0


From c11720c6d322b96db520ef9a9bb8a3fc80a56386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 17/58] fix: a prefix operator leaves what is pending on its
 left to wait for its operand
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A prefix operator binding more loosely than the operator before it made
that operator apply at once, so that `2 * ∸ 3` ran out of operands and
`a + b * ∸ c` silently grouped as `(a * b) + ∸ c`.
---
 src/core/cook/shunt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/cook/shunt.rs b/src/core/cook/shunt.rs
index 0bfce89..3202fd6 100644
--- a/src/core/cook/shunt.rs
+++ b/src/core/cook/shunt.rs
@@ -114,6 +114,13 @@ impl<'smap> Shunter<'smap> {
                 return;
             }
 
+            // Nor does a prefix operator take anything from its left, so
+            // whatever is pending there still waits for its right operand
+            if *this_fixity == Fixity::UnaryPrefix {
+                self.push_op(op);
+                return;
+            }
+
             let top = self.peek_op().cloned();
 
             match top {
-- 
2.43.0


From 6eb17028656457fe3b5b3d5f3b34c4d24a74bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 18/58] fix: implicit return leaves out bound names starting
 with `_`

The reference documents that names starting with an underscore are left
out of the block a monadic block returns implicitly; only the name `_`
itself was.
---
 src/core/desugar/rowan_ast.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/desugar/rowan_ast.rs b/src/core/desugar/rowan_ast.rs
index 4f5dc0c..b74e44a 100644
--- a/src/core/desugar/rowan_ast.rs
+++ b/src/core/desugar/rowan_ast.rs
@@ -1221,8 +1221,8 @@ fn desugar_monadic_block(
 /// { :io r: cmd }   →   io.bind(cmd, λr. io.return({ r: r }))
 /// ```
 ///
-/// Bind names that are exactly `"_"` are excluded from the return block.
-/// If all names are `"_"`, an empty block `{}` is returned instead.
+/// Bind names starting with `_` are excluded from the return block.
+/// If all names are, an empty block `{}` is returned instead.
 fn desugar_monadic_block_implicit(
     smid: Smid,
     decls: Vec<rowan_ast::Declaration>,
@@ -1300,7 +1300,7 @@ fn desugar_monadic_block_implicit(
     let non_underscore: Vec<(String, String)> = bind_names
         .iter()
         .zip(bind_vars.iter())
-        .filter(|(name, _)| name.as_str() != "_")
+        .filter(|(name, _)| !name.starts_with('_'))
         .map(|(name, fv)| (name.clone(), fv.clone()))
         .collect();
 
-- 
2.43.0


From 069770b137327f803722a7d32226ac1cd27324d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 19/58] fix: a monadic block followed by a bare dot is a
 section, not a panic

---
 src/core/desugar/rowan_ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/desugar/rowan_ast.rs b/src/core/desugar/rowan_ast.rs
index b74e44a..67f4d5e 100644
--- a/src/core/desugar/rowan_ast.rs
+++ b/src/core/desugar/rowan_ast.rs
@@ -2235,7 +2235,7 @@ fn desugar_rowan_soup_inner(
             // Collect all consecutive `.name` continuations so that
             // `⟦ r: cmd ⟧.r.field` desugars to
             // `bind(cmd, λ(r). return(r.field))`.
-            let has_dot_return = idx + 2 <= elements.len() && {
+            let has_dot_return = idx + 2 < elements.len() && {
                 let dot_elem = &elements[idx + 1];
                 dot_elem
                     .as_operator_identifier()
@@ -2346,7 +2346,7 @@ fn desugar_rowan_soup_inner(
                     continue;
                 }
 
-                let has_dot_return = idx + 2 <= elements.len() && {
+                let has_dot_return = idx + 2 < elements.len() && {
                     let dot_elem = &elements[idx + 1];
                     dot_elem
                         .as_operator_identifier()
-- 
2.43.0


From 79233cd03fe7feba941d56984d6d6fde5d70c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 20/58] fix: an unclosed bracket at the end of the input is
 reported, not a panic

---
 src/syntax/rowan/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/syntax/rowan/parse.rs b/src/syntax/rowan/parse.rs
index f0368f9..1a6cd5f 100644
--- a/src/syntax/rowan/parse.rs
+++ b/src/syntax/rowan/parse.rs
@@ -84,7 +84,12 @@ impl<'text> Parser<'text> {
         for (_, s) in &self.tokens[0..self.next_token] {
             ch += TextSize::of(*s);
         }
-        TextRange::at(ch, TextSize::of(self.tokens[self.next_token].1))
+        // at the end of the input there is no next token: an empty range
+        let len = self
+            .tokens
+            .get(self.next_token)
+            .map_or(0.into(), |(_, s)| TextSize::of(*s));
+        TextRange::at(ch, len)
     }
 
     /// Calculate a text range covering the last consumed token and the next token.
-- 
2.43.0


From 849a10df40fd387dc0163dffaaa3d1dbc355508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 21/58] fix: a declaration with nothing after its colon keeps
 its tokens

---
 src/syntax/rowan/parse.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/syntax/rowan/parse.rs b/src/syntax/rowan/parse.rs
index 1a6cd5f..1367ac3 100644
--- a/src/syntax/rowan/parse.rs
+++ b/src/syntax/rowan/parse.rs
@@ -1223,7 +1223,11 @@ impl EventSink for BlockEventSink {
         if self.depth == 0 {
             match kind {
                 BACKTICK => {
-                    if !self.buffer.is_empty() {
+                    if self.buffer.is_empty() {
+                        // nothing followed the pending declaration's colon
+                        self.commit_declaration();
+                        self.decl_start_offset = None;
+                    } else {
                         match self.declaration {
                             Some(ref mut d) => {
                                 swap(&mut d.body, &mut self.buffer);
@@ -1269,6 +1273,15 @@ impl EventSink for BlockEventSink {
                                 self.commit_meta();
                             }
                         }
+                    } else if self
+                        .declaration
+                        .as_ref()
+                        .is_some_and(|d| !d.colon.is_empty())
+                    {
+                        // nothing stands between the pending declaration's
+                        // colon and this declaration's head
+                        self.commit_declaration();
+                        self.decl_start_offset = None;
                     }
 
                     // If we have empty head but we have a declaration with metadata,
-- 
2.43.0


From 417c59b1b5cae72098563d1e6772559ca4a37d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 22/58] fix: whitespace inside a string interpolation stays in
 the syntax tree

---
 src/syntax/rowan/parse.rs      |  7 +++++++
 src/syntax/rowan/string_lex.rs | 26 ++++++++++++++++++++++----
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/syntax/rowan/parse.rs b/src/syntax/rowan/parse.rs
index 1367ac3..a3ad585 100644
--- a/src/syntax/rowan/parse.rs
+++ b/src/syntax/rowan/parse.rs
@@ -962,9 +962,11 @@ impl<'text> Parser<'text> {
                     self.sink().start_node(STRING_INTERPOLATION);
                     self.next(); // consume {
                     self.sink().token(OPEN_BRACE, tok_len);
+                    self.add_trivia();
 
                     // Parse interpolation content
                     self.parse_string_interpolation_content();
+                    self.add_trivia();
 
                     // Consume closing brace
                     if let Some((CLOSE_BRACE, close_text)) = self.peek() {
@@ -1045,6 +1047,7 @@ impl<'text> Parser<'text> {
                 self.sink().start_node(NAME);
                 self.sink().token(STRING_INTERPOLATION_TARGET, len);
                 self.sink().finish_node(); // end NAME
+                self.add_trivia();
             }
 
             // Parse alternating dots and targets
@@ -1056,6 +1059,7 @@ impl<'text> Parser<'text> {
                     self.sink().start_node(NAME);
                     self.sink().token(OPERATOR_IDENTIFIER, dot_len);
                     self.sink().finish_node(); // end NAME
+                    self.add_trivia();
 
                     // Parse the following target
                     if let Some((STRING_INTERPOLATION_TARGET, tgt_text)) = self.peek() {
@@ -1064,6 +1068,7 @@ impl<'text> Parser<'text> {
                         self.sink().start_node(NAME);
                         self.sink().token(STRING_INTERPOLATION_TARGET, tgt_len);
                         self.sink().finish_node(); // end NAME
+                        self.add_trivia();
                     } else {
                         // Malformed - dot without following target
                         break;
@@ -1082,6 +1087,7 @@ impl<'text> Parser<'text> {
                 self.sink().start_node(STRING_INTERPOLATION_TARGET);
                 self.sink().token(STRING_INTERPOLATION_TARGET, len);
                 self.sink().finish_node();
+                self.add_trivia();
             }
         }
 
@@ -1090,6 +1096,7 @@ impl<'text> Parser<'text> {
             let colon_len = TextSize::of(colon_text);
             self.next(); // consume :
             self.sink().token(COLON, colon_len);
+            self.add_trivia();
 
             if let Some((STRING_FORMAT_SPEC, spec_text)) = self.peek() {
                 let spec_len = TextSize::of(spec_text);
diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index ec20fd9..0f25c48 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -129,9 +129,18 @@ impl<'text> Iterator for StringPatternLexer<'text> {
     type Item = (SyntaxKind, Span, &'text str);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Skip whitespace in interpolation contexts but preserve in literals
+        // Whitespace in interpolation contexts is trivia of its own, so that
+        // the tokens still cover the whole of the text
         if self.in_interpolation {
-            self.skip_whitespace();
+            let start = self.position;
+            if self.skip_whitespace() {
+                let end = self.position;
+                return Some((
+                    WHITESPACE,
+                    self.make_span(start, end),
+                    self.slice(start, end),
+                ));
+            }
         }
 
         let (start, ch) = self.bump()?;
@@ -319,9 +328,18 @@ impl<'text> Iterator for CStringPatternLexer<'text> {
     type Item = (SyntaxKind, Span, &'text str);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Skip whitespace in interpolation contexts but preserve in literals
+        // Whitespace in interpolation contexts is trivia of its own, so that
+        // the tokens still cover the whole of the text
         if self.in_interpolation {
-            self.skip_whitespace();
+            let start = self.position;
+            if self.skip_whitespace() {
+                let end = self.position;
+                return Some((
+                    WHITESPACE,
+                    self.make_span(start, end),
+                    self.slice(start, end),
+                ));
+            }
         }
 
         let (start, ch) = self.bump()?;
-- 
2.43.0


From d20b504915988e9d266347622f396e9d23c5b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 23/58] fix: unclosed lists, quotes and ill-formed heads and
 brackets are reported

---
 src/syntax/rowan/ast.rs      |  4 +++
 src/syntax/rowan/validate.rs | 64 +++++++++++++++++++++++++++++-------
 2 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/syntax/rowan/ast.rs b/src/syntax/rowan/ast.rs
index 2345101..a1b4eec 100644
--- a/src/syntax/rowan/ast.rs
+++ b/src/syntax/rowan/ast.rs
@@ -1023,6 +1023,10 @@ impl List {
         support::children::<Soup>(&self.0)
     }
 
+    pub fn close_square(&self) -> Option<SyntaxToken> {
+        support::syntax_token(self.syntax(), SyntaxKind::CLOSE_SQUARE)
+    }
+
     /// Returns true if this list contains a `:` head/tail separator.
     ///
     /// Used to detect `[x : xs]` and `[a, b : rest]` patterns in
diff --git a/src/syntax/rowan/validate.rs b/src/syntax/rowan/validate.rs
index 3b5c18c..abc74f1 100644
--- a/src/syntax/rowan/validate.rs
+++ b/src/syntax/rowan/validate.rs
@@ -26,6 +26,32 @@ fn zdt_invalid_reason(content: &str) -> ZdtInvalidReason {
     }
 }
 
+/// Whether the text opens with `prefix` (ending in the opening quote) but
+/// has no closing `quote` of its own.
+fn unclosed(text: &str, prefix: &str, quote: char) -> bool {
+    text.strip_prefix(prefix)
+        .is_some_and(|rest| !rest.ends_with(quote))
+}
+
+/// Whether a c-string literal ends without a closing quote, taking escapes
+/// into account.
+fn unclosed_cstring(text: &str) -> bool {
+    let Some(rest) = text.strip_prefix("c\"") else {
+        return false;
+    };
+    let mut chars = rest.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => {
+                chars.next();
+            }
+            '"' => return false,
+            _ => {}
+        }
+    }
+    true
+}
+
 /// Trait for `AstNode`s and `AstToken`s that may be created for
 /// invalid source text.
 ///
@@ -77,7 +103,7 @@ mod support {
 impl Validatable for Sym {
     /// If a symbol is quoted, it must be quoted correctly
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with('\'') && !self.text().ends_with('\'') {
+        if unclosed(self.text(), ":'", '\'') {
             errors.push(ParseError::UnclosedSingleQuote {
                 range: self.syntax().text_range(),
             })
@@ -88,7 +114,7 @@ impl Validatable for Sym {
 impl Validatable for Str {
     /// String quotes must be closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with('"') && !self.text().ends_with('"') {
+        if unclosed(self.text(), "\"", '"') {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             })
@@ -99,7 +125,7 @@ impl Validatable for Str {
 impl Validatable for CStr {
     /// C-string quotes must be closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("c\"") && !self.text().ends_with('"') {
+        if unclosed_cstring(self.text()) {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             })
@@ -110,7 +136,7 @@ impl Validatable for CStr {
 impl Validatable for RawStr {
     /// Raw string quotes must be closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("r\"") && !self.text().ends_with('"') {
+        if unclosed(self.text(), "r\"", '"') {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             })
@@ -121,7 +147,7 @@ impl Validatable for RawStr {
 impl Validatable for TStr {
     /// ZDT literal must contain a valid timestamp
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("t\"") && !self.text().ends_with('"') {
+        if unclosed(self.text(), "t\"", '"') {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             });
@@ -142,7 +168,7 @@ impl Validatable for TStr {
 impl Validatable for SStr {
     /// Type-data literal — only validate that it is properly closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("s\"") && !self.text().ends_with('"') {
+        if unclosed(self.text(), "s\"", '"') {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             });
@@ -184,7 +210,7 @@ impl Validatable for OperatorIdentifier {}
 
 impl Validatable for SingleQuoteIdentifier {
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with('\'') && !self.text().ends_with('\'') {
+        if unclosed(self.text(), "'", '\'') {
             errors.push(ParseError::UnclosedSingleQuote {
                 range: self.syntax().text_range(),
             })
@@ -263,9 +289,12 @@ impl Validatable for DeclarationMetadata {
 
 impl Validatable for DeclarationHead {
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        let mut dk = self.classify_declaration();
-        if let DeclarationKind::MalformedHead(ref mut es) = dk {
-            errors.append(es);
+        match self.classify_declaration() {
+            DeclarationKind::MalformedHead(mut es) => errors.append(&mut es),
+            DeclarationKind::Function(_, args) => args.validate(errors),
+            DeclarationKind::BracketPair(_, bracket, _)
+            | DeclarationKind::BracketBlockDef(_, bracket) => bracket.validate(errors),
+            _ => {}
         }
 
         support::no_error_children(self.syntax(), errors);
@@ -385,6 +414,12 @@ impl Validatable for List {
             item.validate(errors);
         }
 
+        if self.close_square().is_none() {
+            errors.push(ParseError::UnclosedBracketExpr {
+                range: self.syntax().text_range(),
+            });
+        }
+
         support::no_error_children(self.syntax(), errors);
     }
 }
@@ -425,6 +460,8 @@ impl Validatable for BracketExpr {
         if let Some(soup) = self.soup() {
             soup.validate(errors);
         }
+
+        support::no_error_children(self.syntax(), errors);
     }
 }
 
@@ -460,10 +497,15 @@ impl Validatable for BracketBlock {
             }
         }
 
-        // Validate declarations
+        // Validate metadata and declarations
+        if let Some(m) = self.meta() {
+            m.validate(errors);
+        }
         for decl in self.declarations() {
             decl.validate(errors);
         }
+
+        support::no_error_children(self.syntax(), errors);
     }
 }
 
-- 
2.43.0


From 0c65f863803b7c9a0f4d8bc84ad619128b501612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 24/58] fix: anything after the reference in a string
 interpolation is reported

---
 src/syntax/rowan/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/syntax/rowan/parse.rs b/src/syntax/rowan/parse.rs
index a3ad585..fc4c24c 100644
--- a/src/syntax/rowan/parse.rs
+++ b/src/syntax/rowan/parse.rs
@@ -1002,6 +1002,15 @@ impl<'text> Parser<'text> {
                                 // will be consumed by the outer loop.
                                 break;
                             }
+                            if k == STRING_INTERPOLATION_TARGET {
+                                // Nothing but a reference and a format can be
+                                // interpolated
+                                self.errors.push(ParseError::UnexpectedToken {
+                                    expected: CLOSE_BRACE,
+                                    actual: k,
+                                    range: self.next_range(),
+                                });
+                            }
                             self.next();
                             self.sink().token(k, stray_len);
                         }
-- 
2.43.0


From ffb0e3944d470aeb90cb7afc0ec3768ae0034aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:06 +0000
Subject: [PATCH 25/58] fix: formatting keeps comments, metadata and tokens

Full reformatting dropped block metadata, the metadata of declarations in
single line blocks, and comments anywhere but between top level
declarations; it turned unit metadata into that of the first declaration
and joined operators to what follows where they then read as something
else; and its choice of layout depended on the spacing of its input, so
that formatting twice differed. Comments and constructs with no canonical
layout are now kept as written. A carriage return by itself no longer
vanishes between two tokens, and one at the end of a comment does.
---
 src/syntax/export/format.rs | 570 ++++++++++++++++++++++++++----------
 1 file changed, 412 insertions(+), 158 deletions(-)

diff --git a/src/syntax/export/format.rs b/src/syntax/export/format.rs
index df9d58c..80b495b 100644
--- a/src/syntax/export/format.rs
+++ b/src/syntax/export/format.rs
@@ -14,6 +14,7 @@
 
 use crate::syntax::rowan::ast::{self as rowan_ast, AstToken, HasSoup};
 use crate::syntax::rowan::kind::{SyntaxKind, SyntaxNode, SyntaxToken};
+use crate::syntax::rowan::lex::Lexer;
 use pretty::RcDoc;
 use rowan::ast::AstNode;
 
@@ -56,6 +57,33 @@ const MAX_SINGLE_LINE_DECLS: usize = 3;
 /// Accounts for potential nesting, braces, and other tokens on the same line.
 const SINGLE_LINE_MARGIN: usize = 10;
 
+/// A line (at least) of a unit or block
+enum Line {
+    Comment {
+        text: String,
+        /// Trails what is before it on the same line
+        same_line: bool,
+        blank_before: bool,
+    },
+    Node {
+        node: SyntaxNode,
+        blank_before: bool,
+    },
+}
+
+impl Line {
+    /// A comment on a line of its own
+    fn is_own_line(&self) -> bool {
+        matches!(
+            self,
+            Line::Comment {
+                same_line: false,
+                ..
+            }
+        )
+    }
+}
+
 /// The main formatter struct
 pub struct Formatter {
     config: FormatterConfig,
@@ -127,106 +155,186 @@ impl Formatter {
     // Full Reformatting Mode
     // ========================================================================
 
-    /// Extract leading comments (including shebang) from a syntax node
-    fn extract_leading_comments(&self, node: &SyntaxNode) -> Vec<String> {
-        let mut comments = Vec::new();
+    /// Everything that is laid out line by line in a node: its child nodes
+    /// and the comments between, before and after them
+    fn lines(&self, node: &SyntaxNode) -> Vec<Line> {
+        let mut lines: Vec<Line> = Vec::new();
+        let mut newlines = 0;
         for child in node.children_with_tokens() {
             match child {
-                rowan::NodeOrToken::Token(t) => {
-                    if t.kind() == SyntaxKind::COMMENT {
-                        comments.push(t.text().to_string());
-                    } else if t.kind() != SyntaxKind::WHITESPACE {
-                        // Stop at first non-trivia token
-                        break;
-                    }
+                rowan::NodeOrToken::Token(t) if t.kind() == SyntaxKind::WHITESPACE => {
+                    newlines += t.text().chars().filter(|&c| c == '\n').count();
                 }
-                rowan::NodeOrToken::Node(_) => {
-                    // Stop at first node (declarations, metadata, etc.)
-                    break;
+                rowan::NodeOrToken::Token(t) if t.kind() == SyntaxKind::COMMENT => {
+                    lines.push(Line::Comment {
+                        text: t.text().trim_end().to_string(),
+                        same_line: newlines == 0 && matches!(lines.last(), Some(Line::Node { .. })),
+                        blank_before: newlines > 1,
+                    });
+                    newlines = 0;
                 }
+                rowan::NodeOrToken::Token(_) => {}
+                rowan::NodeOrToken::Node(node) => {
+                    lines.push(Line::Node {
+                        node,
+                        blank_before: newlines > 1,
+                    });
+                    newlines = 0;
+                }
+            }
+        }
+        lines
+    }
+
+    /// Comments directly in a node which come before its last other content
+    fn has_inner_comment(&self, node: &SyntaxNode) -> bool {
+        let mut pending = false;
+        for child in node.children_with_tokens() {
+            match child.kind() {
+                SyntaxKind::WHITESPACE | SyntaxKind::COMMA => {}
+                SyntaxKind::COMMENT => pending = true,
+                _ if pending => return true,
+                _ => {}
             }
         }
-        comments
+        false
+    }
+
+    /// Comments at the end of a soup
+    fn trailing_comments(&self, soup: &rowan_ast::Soup) -> Vec<Line> {
+        let mut lines = self.lines(soup.syntax());
+        let content = lines
+            .iter()
+            .rposition(|line| matches!(line, Line::Node { .. }))
+            .map_or(0, |i| i + 1);
+        lines.split_off(content)
+    }
+
+    fn has_comment(&self, node: &SyntaxNode) -> bool {
+        node.children_with_tokens()
+            .any(|child| child.kind() == SyntaxKind::COMMENT)
+    }
+
+    fn has_comment_within(&self, node: &SyntaxNode) -> bool {
+        node.descendants_with_tokens()
+            .any(|child| child.kind() == SyntaxKind::COMMENT)
+    }
+
+    /// Preserve source text (other than tabs and line endings), less any
+    /// whitespace and separators at its end
+    fn as_written(&self, node: &SyntaxNode) -> RcDoc<'static, ()> {
+        self.as_written_before(node, |kind| {
+            matches!(kind, SyntaxKind::WHITESPACE | SyntaxKind::COMMA)
+        })
     }
 
-    /// Extract comments that precede a declaration
-    fn extract_declaration_leading_comments(&self, decl: &rowan_ast::Declaration) -> Vec<String> {
-        let mut found_comments = Vec::new();
-        // Look at the previous siblings to find comments
-        let mut prev = decl.syntax().prev_sibling_or_token();
+    /// Preserve the source text of a soup, less any comments at its end
+    fn soup_as_written(&self, soup: &rowan_ast::Soup) -> RcDoc<'static, ()> {
+        self.as_written_before(soup.syntax(), |kind| {
+            kind.is_trivial() || kind == SyntaxKind::COMMA
+        })
+    }
 
-        while let Some(sibling) = prev {
-            match &sibling {
+    fn as_written_before(
+        &self,
+        node: &SyntaxNode,
+        omit: fn(SyntaxKind) -> bool,
+    ) -> RcDoc<'static, ()> {
+        let mut children: Vec<_> = node.children_with_tokens().collect();
+        while children.last().is_some_and(|c| omit(c.kind())) {
+            children.pop();
+        }
+        let mut text = String::new();
+        let mut line_col = 0;
+        for child in children {
+            match child {
+                rowan::NodeOrToken::Node(n) => {
+                    self.process_node_conservative(&n, &mut text, &mut line_col)
+                }
                 rowan::NodeOrToken::Token(t) => {
-                    if t.kind() == SyntaxKind::COMMENT {
-                        found_comments.push(t.text().to_string());
-                    } else if t.kind() == SyntaxKind::WHITESPACE {
-                        // Check if whitespace contains blank line (resets comment association)
-                        if t.text().chars().filter(|&c| c == '\n').count() > 1 {
-                            break;
-                        }
-                    } else {
-                        break;
-                    }
+                    self.process_token_conservative(&t, &mut text, &mut line_col)
                 }
-                rowan::NodeOrToken::Node(_) => break,
             }
-            prev = sibling.prev_sibling_or_token();
         }
+        RcDoc::text(text.trim().to_string())
+    }
 
-        // Reverse since we collected in reverse order
-        found_comments.reverse();
-        found_comments
+    /// The width of a document, or None if it takes more than one line
+    fn flat_width(&self, doc: &RcDoc<'static, ()>) -> Option<usize> {
+        let text = doc.pretty(usize::MAX).to_string();
+        (!text.contains('\n')).then(|| text.len())
     }
 
     fn reformat_unit(&self, unit: &rowan_ast::Unit) -> RcDoc<'static, ()> {
+        let lines = self.lines(unit.syntax());
         let mut result = RcDoc::nil();
+        let mut header = true;
+
+        for (i, line) in lines.iter().enumerate() {
+            // Comments stay with the declaration they precede or trail,
+            // everything else is separated by a blank line
+            let blank_line = match line {
+                Line::Comment {
+                    same_line: true,
+                    text,
+                    ..
+                } => {
+                    result = result.append(RcDoc::text(format!(" {text}")));
+                    continue;
+                }
+                Line::Comment { blank_before, .. } => {
+                    *blank_before || !i.checked_sub(1).is_some_and(|p| lines[p].is_own_line())
+                }
+                Line::Node { blank_before, .. } => {
+                    *blank_before || header || !lines[i - 1].is_own_line()
+                }
+            };
 
-        // Preserve leading comments (including shebang) as a single header block
-        let leading_comments = self.extract_leading_comments(unit.syntax());
-        if !leading_comments.is_empty() {
-            for comment in &leading_comments {
-                result = result
-                    .append(RcDoc::text(comment.clone()))
-                    .append(RcDoc::hardline());
-            }
-            // Add blank line after leading comments section
-            result = result.append(RcDoc::hardline());
-        }
-
-        // Handle metadata if present
-        if let Some(meta) = unit.meta() {
-            result = result.append(self.reformat_block_metadata(&meta));
-            result = result.append(RcDoc::hardline()).append(RcDoc::hardline());
-        }
-
-        // Format each declaration with its leading comments
-        let declarations: Vec<_> = unit.declarations().collect();
-        for (i, decl) in declarations.iter().enumerate() {
             if i > 0 {
-                // Blank line between declarations
                 result = result.append(RcDoc::hardline());
-
-                // Extract and add comments that precede this declaration (not the first one,
-                // as those are already handled by extract_leading_comments)
-                let decl_comments = self.extract_declaration_leading_comments(decl);
-                for comment in &decl_comments {
-                    result = result
-                        .append(RcDoc::text(comment.clone()))
-                        .append(RcDoc::hardline());
+                if blank_line {
+                    result = result.append(RcDoc::hardline());
                 }
             }
 
-            result = result.append(self.reformat_declaration(decl));
-            if i < declarations.len() - 1 {
-                result = result.append(RcDoc::hardline());
+            match line {
+                Line::Comment { text, .. } => result = result.append(RcDoc::text(text.clone())),
+                Line::Node { node, .. } => {
+                    header = false;
+                    result = result.append(self.reformat_block_item(node));
+                }
             }
         }
 
         result
     }
 
+    /// Format the metadata or a declaration of a block or unit
+    fn reformat_block_item(&self, node: &SyntaxNode) -> RcDoc<'static, ()> {
+        if let Some(decl) = rowan_ast::Declaration::cast(node.clone()) {
+            self.reformat_declaration(&decl)
+        } else if let Some(meta) = rowan_ast::BlockMetadata::cast(node.clone()) {
+            self.reformat_block_metadata(&meta)
+        } else {
+            self.as_written(node)
+        }
+    }
+
     fn reformat_declaration(&self, decl: &rowan_ast::Declaration) -> RcDoc<'static, ()> {
+        // Comments in places which have no canonical layout stay put
+        if self.has_comment(decl.syntax())
+            || decl
+                .head()
+                .is_some_and(|h| self.has_comment_within(h.syntax()))
+            || decl.body().is_some_and(|b| {
+                self.has_comment(b.syntax())
+                    || b.soup()
+                        .is_some_and(|s| !self.trailing_comments(&s).is_empty())
+            })
+        {
+            return self.as_written(decl.syntax());
+        }
+
         let mut doc = RcDoc::nil();
 
         // Handle metadata
@@ -269,16 +377,20 @@ impl Formatter {
                     .append(RcDoc::text(")"))
             }
             rowan_ast::DeclarationKind::Prefix(_, op, operand) => {
-                // Format: (op operand) - no space between operator and operand
+                // Format: (op operand) - no space between operator and
+                // operand, unless they would read as something else
                 RcDoc::text("(")
                     .append(RcDoc::text(op.syntax().text().to_string()))
+                    .append(self.tight_space(op.syntax(), operand.syntax()))
                     .append(RcDoc::text(operand.syntax().text().to_string()))
                     .append(RcDoc::text(")"))
             }
             rowan_ast::DeclarationKind::Postfix(_, operand, op) => {
-                // Format: (operand op) - no space between operand and operator
+                // Format: (operand op) - no space between operand and
+                // operator, unless they would read as something else
                 RcDoc::text("(")
                     .append(RcDoc::text(operand.syntax().text().to_string()))
+                    .append(self.tight_space(operand.syntax(), op.syntax()))
                     .append(RcDoc::text(op.syntax().text().to_string()))
                     .append(RcDoc::text(")"))
             }
@@ -295,24 +407,76 @@ impl Formatter {
             rowan_ast::DeclarationKind::BracketPair(paren, bracket, _) => {
                 // Format: preserve source text (with or without surrounding parens)
                 if let Some(p) = paren {
-                    RcDoc::text(p.syntax().text().to_string())
+                    self.as_written(p.syntax())
                 } else {
-                    RcDoc::text(bracket.syntax().text().to_string())
+                    self.as_written(bracket.syntax())
                 }
             }
             rowan_ast::DeclarationKind::BracketBlockDef(paren, bracket) => {
                 // Format: preserve source text (with or without surrounding parens)
                 if let Some(p) = paren {
-                    RcDoc::text(p.syntax().text().to_string())
+                    self.as_written(p.syntax())
                 } else {
-                    RcDoc::text(bracket.syntax().text().to_string())
+                    self.as_written(bracket.syntax())
                 }
             }
             rowan_ast::DeclarationKind::MalformedHead(_) => {
                 // Preserve original for malformed heads
-                RcDoc::text(head.syntax().text().to_string())
+                self.as_written(head.syntax())
+            }
+        }
+    }
+
+    /// The space between two things that bind tightly: none, unless they
+    /// would read as something else when they touch
+    fn tight_space(&self, left: &SyntaxToken, right: &SyntaxToken) -> RcDoc<'static, ()> {
+        if self.can_touch(left, right) {
+            RcDoc::nil()
+        } else {
+            RcDoc::space()
+        }
+    }
+
+    /// Whether the last token of one element and the first of another are
+    /// still the same tokens with no space between them
+    fn elements_can_touch(&self, left: &SyntaxNode, right: &SyntaxNode) -> bool {
+        match (left.last_token(), right.first_token()) {
+            (Some(left), Some(right)) => self.can_touch(&left, &right),
+            _ => false,
+        }
+    }
+
+    /// Whether tokens are still the same tokens with no space between them
+    fn can_touch(&self, left: &SyntaxToken, right: &SyntaxToken) -> bool {
+        // A dot between digits is a decimal point and the parts of a string
+        // pattern are no tokens of their own
+        for (token, other) in [(left, right), (right, left)] {
+            match token.kind() {
+                SyntaxKind::NUMBER if other.text() == "." => return false,
+                SyntaxKind::UNQUOTED_IDENTIFIER
+                | SyntaxKind::OPERATOR_IDENTIFIER
+                | SyntaxKind::SINGLE_QUOTE_IDENTIFIER
+                | SyntaxKind::NUMBER
+                | SyntaxKind::STRING
+                | SyntaxKind::SYMBOL
+                | SyntaxKind::OPEN_PAREN
+                | SyntaxKind::OPEN_BRACE
+                | SyntaxKind::OPEN_SQUARE
+                | SyntaxKind::CLOSE_PAREN
+                | SyntaxKind::CLOSE_BRACE
+                | SyntaxKind::CLOSE_SQUARE => {}
+                _ => return false,
             }
         }
+        let text = format!("{}{}", left.text(), right.text());
+        let tokens: Vec<_> = Lexer::from_text(&text)
+            .map(|(kind, span)| (kind, (span.end() - span.start()).0 as usize))
+            .collect();
+        tokens
+            == [
+                (left.kind(), left.text().len()),
+                (right.kind(), right.text().len()),
+            ]
     }
 
     fn reformat_soup(&self, soup: &rowan_ast::Soup) -> RcDoc<'static, ()> {
@@ -321,6 +485,10 @@ impl Formatter {
             return RcDoc::nil();
         }
 
+        if self.has_inner_comment(soup.syntax()) {
+            return self.soup_as_written(soup);
+        }
+
         let mut docs = Vec::new();
 
         for (i, elem) in elements.iter().enumerate() {
@@ -348,11 +516,10 @@ impl Formatter {
                 // - This or previous element is a dot operator
                 // - Previous element is a prefix operator (tight binding)
                 // - This element is a postfix operator (tight binding)
+                // ...or the two would read as something else without it
+                let tight = is_dot_op || prev_was_dot || prev_is_prefix_op || is_postfix_op;
                 let need_space = !is_apply_tuple
-                    && !is_dot_op
-                    && !prev_was_dot
-                    && !prev_is_prefix_op
-                    && !is_postfix_op;
+                    && !(tight && self.elements_can_touch(elements[i - 1].syntax(), elem.syntax()));
 
                 if need_space {
                     docs.push(RcDoc::space());
@@ -423,11 +590,11 @@ impl Formatter {
             rowan_ast::Element::ApplyTuple(at) => self.reformat_apply_tuple(at),
             rowan_ast::Element::BracketExpr(be) => {
                 // Preserve bracket expressions as-is from source text
-                RcDoc::text(be.syntax().text().to_string())
+                self.as_written(be.syntax())
             }
             rowan_ast::Element::BracketBlock(bb) => {
                 // Preserve bracket blocks as-is from source text
-                RcDoc::text(bb.syntax().text().to_string())
+                self.as_written(bb.syntax())
             }
         }
     }
@@ -442,70 +609,96 @@ impl Formatter {
     }
 
     fn reformat_block(&self, block: &rowan_ast::Block) -> RcDoc<'static, ()> {
-        let decls: Vec<_> = block.declarations().collect();
+        let lines = self.lines(block.syntax());
 
-        if decls.is_empty() {
+        if lines.is_empty() {
             return RcDoc::text("{ }");
         }
 
-        // Check if block can be single line (short enough, no nested blocks)
-        let single_line_len = self.estimate_block_single_line_len(block);
-        let can_single_line = single_line_len
-            <= self.config.line_width.saturating_sub(SINGLE_LINE_MARGIN)
-            && decls.len() <= MAX_SINGLE_LINE_DECLS
-            && !self.has_nested_block(block);
-
-        if can_single_line {
-            // Single line: { a: 1, b: 2 }
-            let mut docs = vec![RcDoc::text("{ ")];
-            for (i, decl) in decls.iter().enumerate() {
-                if i > 0 {
-                    docs.push(RcDoc::text(", "));
-                }
-                docs.push(self.reformat_declaration_inline(decl));
-            }
-            docs.push(RcDoc::text(" }"));
-            RcDoc::concat(docs)
-        } else {
-            // Multi-line block
-            let indent = self.config.indent_size;
-            let mut inner_docs = Vec::new();
-
-            for decl in &decls {
-                inner_docs.push(self.reformat_declaration(decl));
-            }
-
-            let inner = RcDoc::intersperse(inner_docs, RcDoc::hardline());
+        let items: Vec<_> = lines
+            .iter()
+            .filter_map(|line| match line {
+                Line::Node { node, .. } => Some(self.reformat_block_item(node)),
+                Line::Comment { .. } => None,
+            })
+            .collect();
+
+        if let Some(doc) = self.block_on_single_line(block, &items) {
+            return doc;
+        }
 
-            // Nest includes the leading hardline so first line gets indented too
-            RcDoc::text("{")
-                .append(RcDoc::hardline().append(inner).nest(indent as isize))
-                .append(RcDoc::hardline())
-                .append(RcDoc::text("}"))
+        // Multi-line block
+        let indent = self.config.indent_size;
+        let mut inner = RcDoc::nil();
+        let mut items = items.into_iter();
+
+        for line in &lines {
+            inner = match line {
+                Line::Comment {
+                    same_line: true,
+                    text,
+                    ..
+                } => inner.append(RcDoc::text(format!(" {text}"))),
+                Line::Comment { text, .. } => inner
+                    .append(RcDoc::hardline())
+                    .append(RcDoc::text(text.clone())),
+                Line::Node { .. } => inner
+                    .append(RcDoc::hardline())
+                    .append(items.next().unwrap_or_else(RcDoc::nil)),
+            };
         }
-    }
 
-    fn reformat_declaration_inline(&self, decl: &rowan_ast::Declaration) -> RcDoc<'static, ()> {
-        let mut doc = RcDoc::nil();
+        // Nest includes the leading hardline so first line gets indented too
+        RcDoc::text("{")
+            .append(inner.nest(indent as isize))
+            .append(RcDoc::hardline())
+            .append(RcDoc::text("}"))
+    }
 
-        if let Some(head) = decl.head() {
-            doc = doc.append(self.reformat_decl_head(&head));
+    /// Lay the metadata and declarations of a block out on a single line:
+    /// { a: 1, b: 2 }
+    ///
+    /// None unless it is short enough with no nested blocks, comments or
+    /// declaration metadata
+    fn block_on_single_line(
+        &self,
+        block: &rowan_ast::Block,
+        items: &[RcDoc<'static, ()>],
+    ) -> Option<RcDoc<'static, ()>> {
+        if block.declarations().count() > MAX_SINGLE_LINE_DECLS
+            || self.has_nested_block(block)
+            || self.has_comment_within(block.syntax())
+            || block.declarations().any(|decl| decl.meta().is_some())
+        {
+            return None;
         }
 
-        doc = doc.append(RcDoc::text(": "));
+        let mut width = 4; // "{ " and " }"
+        let mut docs = vec![RcDoc::text("{ ")];
 
-        if let Some(body) = decl.body() {
-            if let Some(soup) = body.soup() {
-                doc = doc.append(self.reformat_soup(&soup));
+        for (i, item) in items.iter().enumerate() {
+            if i > 0 {
+                let after_meta = i == 1 && block.meta().is_some();
+                docs.push(RcDoc::text(if after_meta { " " } else { ", " }));
             }
+            width += self.flat_width(item)? + 2; // ", " separator
+            docs.push(item.clone());
         }
 
-        doc
+        docs.push(RcDoc::text(" }"));
+
+        (width <= self.config.line_width.saturating_sub(SINGLE_LINE_MARGIN))
+            .then(|| RcDoc::concat(docs))
     }
 
     fn reformat_list(&self, list: &rowan_ast::List) -> RcDoc<'static, ()> {
         let items: Vec<_> = list.items().collect();
 
+        // Comments between the items have no canonical layout
+        if self.has_loose_comment(list.syntax()) {
+            return self.as_written(list.syntax());
+        }
+
         if items.is_empty() {
             return RcDoc::text("[]");
         }
@@ -524,22 +717,22 @@ impl Formatter {
                 .append(RcDoc::text("]"));
         }
 
-        // Estimate single-line length
-        let single_line_len: usize = items
+        let docs: Vec<_> = items.iter().map(|s| self.reformat_soup(s)).collect();
+
+        // Single-line length
+        let single_line_len: usize = docs
             .iter()
-            .map(|s| usize::from(s.syntax().text().len()) + 2)
+            .map(|doc| doc.pretty(usize::MAX).to_string().len() + 2)
             .sum();
 
-        if single_line_len <= self.config.line_width.saturating_sub(10) {
+        if single_line_len <= self.config.line_width.saturating_sub(SINGLE_LINE_MARGIN) {
             // Single line: [a, b, c]
-            let docs: Vec<_> = items.iter().map(|s| self.reformat_soup(s)).collect();
             RcDoc::text("[")
                 .append(RcDoc::intersperse(docs, RcDoc::text(", ")))
                 .append(RcDoc::text("]"))
         } else {
             // Multi-line - same pattern as blocks for consistent indentation
             let indent = self.config.indent_size;
-            let docs: Vec<_> = items.iter().map(|s| self.reformat_soup(s)).collect();
             let inner = RcDoc::intersperse(docs, RcDoc::text(",").append(RcDoc::hardline()));
 
             RcDoc::text("[")
@@ -549,7 +742,18 @@ impl Formatter {
         }
     }
 
+    /// Comments directly in a list or tuple, or in the soups of its items
+    fn has_loose_comment(&self, node: &SyntaxNode) -> bool {
+        self.has_comment(node)
+            || node
+                .children()
+                .any(|c| c.kind() == SyntaxKind::SOUP && self.has_comment(&c))
+    }
+
     fn reformat_paren_expr(&self, pe: &rowan_ast::ParenExpr) -> RcDoc<'static, ()> {
+        if self.has_loose_comment(pe.syntax()) {
+            return self.as_written(pe.syntax());
+        }
         let inner = pe
             .soup()
             .map(|s| self.reformat_soup(&s))
@@ -560,6 +764,10 @@ impl Formatter {
     fn reformat_apply_tuple(&self, at: &rowan_ast::ApplyTuple) -> RcDoc<'static, ()> {
         let items: Vec<_> = at.items().collect();
 
+        if self.has_loose_comment(at.syntax()) {
+            return self.as_written(at.syntax());
+        }
+
         if items.is_empty() {
             return RcDoc::text("()");
         }
@@ -570,7 +778,7 @@ impl Formatter {
         if at.is_block_apply() || at.is_list_apply() {
             // Preserve the original source text to avoid losing shorthand patterns
             // like `{x y}` (which have no declarations, only block meta).
-            return RcDoc::text(at.syntax().text().to_string());
+            return self.as_written(at.syntax());
         }
 
         let docs: Vec<_> = items.iter().map(|s| self.reformat_soup(s)).collect();
@@ -585,21 +793,45 @@ impl Formatter {
     }
 
     fn reformat_block_metadata(&self, meta: &rowan_ast::BlockMetadata) -> RcDoc<'static, ()> {
-        if let Some(soup) = meta.soup() {
-            RcDoc::text("` ").append(self.reformat_soup(&soup))
-        } else {
-            RcDoc::nil()
-        }
+        meta.soup()
+            .map_or_else(RcDoc::nil, |soup| self.reformat_metadata_soup(&soup))
     }
 
     fn reformat_decl_metadata(&self, meta: &rowan_ast::DeclarationMetadata) -> RcDoc<'static, ()> {
+        if self.has_comment(meta.syntax()) {
+            return self.as_written(meta.syntax());
+        }
         if let Some(soup) = meta.soup() {
-            RcDoc::text("` ").append(self.reformat_soup(&soup))
+            if self.has_inner_comment(soup.syntax()) {
+                // As written, which has the backtick already
+                self.reformat_metadata_soup(&soup)
+            } else {
+                RcDoc::text("` ").append(self.reformat_metadata_soup(&soup))
+            }
         } else {
             RcDoc::nil()
         }
     }
 
+    /// Format metadata with the comments between it and what it applies to
+    fn reformat_metadata_soup(&self, soup: &rowan_ast::Soup) -> RcDoc<'static, ()> {
+        let mut doc = self.reformat_soup(soup);
+        for line in self.trailing_comments(soup) {
+            if let Line::Comment {
+                text, same_line, ..
+            } = line
+            {
+                doc = if same_line {
+                    doc.append(RcDoc::space())
+                } else {
+                    doc.append(RcDoc::hardline())
+                };
+                doc = doc.append(RcDoc::text(text));
+            }
+        }
+        doc
+    }
+
     // ========================================================================
     // Conservative Mode
     // ========================================================================
@@ -629,6 +861,22 @@ impl Formatter {
     ) {
         for child in node.children_with_tokens() {
             match child {
+                rowan::NodeOrToken::Node(n)
+                    if matches!(
+                        n.kind(),
+                        SyntaxKind::STRING_PATTERN
+                            | SyntaxKind::C_STRING_PATTERN
+                            | SyntaxKind::RAW_STRING_PATTERN
+                    ) =>
+                {
+                    // Strings stay as they are
+                    for t in n
+                        .descendants_with_tokens()
+                        .filter_map(rowan::NodeOrToken::into_token)
+                    {
+                        self.push_token(t.text(), result, line_col);
+                    }
+                }
                 rowan::NodeOrToken::Node(n) => {
                     self.process_node_conservative(&n, result, line_col);
                 }
@@ -672,20 +920,28 @@ impl Formatter {
                 result.push_str(text);
                 *line_col += text.len();
             }
-            _ => {
-                // Update line_col tracking
-                for c in text.chars() {
-                    if c == '\n' {
-                        *line_col = 0;
-                    } else {
-                        *line_col += 1;
-                    }
-                }
+            SyntaxKind::COMMENT => {
+                // A comment ends where its line does: drop the CR of a CRLF
+                let text = text.trim_end_matches('\r');
                 result.push_str(text);
+                *line_col += text.chars().count();
             }
+            _ => self.push_token(text, result, line_col),
         }
     }
 
+    fn push_token(&self, text: &str, result: &mut String, line_col: &mut usize) {
+        // Update line_col tracking
+        for c in text.chars() {
+            if c == '\n' {
+                *line_col = 0;
+            } else {
+                *line_col += 1;
+            }
+        }
+        result.push_str(text);
+    }
+
     /// Normalize whitespace: convert tabs to spaces while preserving alignment
     /// line_col is the column position at the start of this whitespace token
     fn normalize_whitespace(&self, ws: &str, line_col: usize) -> String {
@@ -695,7 +951,8 @@ impl Formatter {
         // Standard tab width for alignment preservation
         const TAB_WIDTH: usize = 8;
 
-        for c in ws.chars() {
+        let mut chars = ws.chars().peekable();
+        while let Some(c) = chars.next() {
             match c {
                 '\n' => {
                     result.push('\n');
@@ -718,6 +975,11 @@ impl Formatter {
                 '\r' => {
                     // Normalize line endings to LF by discarding CR characters.
                     // This standardizes output regardless of input line ending style.
+                    // A CR which is a line ending by itself becomes an LF.
+                    if chars.peek() != Some(&'\n') {
+                        result.push('\n');
+                        col = 0;
+                    }
                 }
                 _ => {
                     result.push(c);
@@ -736,14 +998,6 @@ impl Formatter {
     // Helper Methods
     // ========================================================================
 
-    fn estimate_block_single_line_len(&self, block: &rowan_ast::Block) -> usize {
-        let mut len = 4; // "{ " and " }"
-        for decl in block.declarations() {
-            len += usize::from(decl.syntax().text().len()) + 2; // ", " separator
-        }
-        len
-    }
-
     fn has_nested_block(&self, block: &rowan_ast::Block) -> bool {
         for decl in block.declarations() {
             if let Some(body) = decl.body() {
-- 
2.43.0


From 8d2ea33b000a731367ff5be397c0557f452cb20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 26/58] fix: eucalypt-syntax output reads back as the value it
 came from

---
 src/export/eu.rs | 122 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 107 insertions(+), 15 deletions(-)

diff --git a/src/export/eu.rs b/src/export/eu.rs
index c0d2bca..327b969 100644
--- a/src/export/eu.rs
+++ b/src/export/eu.rs
@@ -7,6 +7,7 @@
 
 use crate::eval::emit::{Emitter, Event, Rejection, RenderMetadata};
 use crate::eval::primitive::Primitive;
+use crate::syntax::rowan::lex::{is_normal_continuation, is_normal_start};
 use pretty::RcDoc;
 use std::io::Write;
 
@@ -63,28 +64,105 @@ impl FromPairs<String, EuValue> for EuValue {
     }
 }
 
-/// Escape and quote a string as a eucalypt string literal.
+/// Quote a string as a eucalypt string literal.
 ///
-/// Eucalypt uses JSON-compatible string syntax, so we delegate to
-/// `serde_json` for correct escaping.
+/// A plain literal has no escapes and reserves only braces, which double;
+/// anything it cannot carry legibly becomes a c-string.
 fn eu_quote_str(s: &str) -> String {
-    serde_json::to_string(s).unwrap_or_else(|_| format!("{s:?}"))
+    if !s.chars().any(|c| c == '"' || c.is_control()) {
+        return format!("\"{}\"", s.replace('{', "{{").replace('}', "}}"));
+    }
+    let mut out = String::from("c\"");
+    for c in s.chars() {
+        match c {
+            '"' | '\\' | '{' | '}' => {
+                out.push('\\');
+                out.push(c);
+            }
+            '\n' => out.push_str("\\n"),
+            '\r' => out.push_str("\\r"),
+            '\t' => out.push_str("\\t"),
+            c if c.is_control() => out.push_str(&format!("\\u{:04x}", c as u32)),
+            c => out.push(c),
+        }
+    }
+    out.push('"');
+    out
+}
+
+/// Spell a name, quoting it unless it is an ordinary identifier.
+fn eu_name(s: &str) -> String {
+    let mut chars = s.chars();
+    let ordinary = chars.next().is_some_and(|c| {
+        // `_`, `_0` and `•` are anaphora unless quoted
+        is_normal_start(c) && c != '_' && c != '•'
+    }) && chars.all(is_normal_continuation);
+    if ordinary {
+        s.to_string()
+    } else {
+        format!("'{s}'")
+    }
+}
+
+/// A number literal; eucalypt has no exponent notation.
+fn eu_number(n: &serde_json::Number) -> String {
+    match n.as_f64() {
+        Some(f) if n.is_f64() => {
+            let digits = f.to_string();
+            if digits.contains('.') {
+                digits
+            } else {
+                format!("{digits}.0")
+            }
+        }
+        _ => n.to_string(),
+    }
+}
+
+/// Whether any block in the value has a key spelled like a constant, which
+/// would then capture that constant's name within the block.
+fn has_constant_key(val: &EuValue) -> bool {
+    match val {
+        EuValue::Array(items) => items.iter().any(has_constant_key),
+        EuValue::Block(pairs) => pairs
+            .iter()
+            .any(|(k, v)| matches!(k.as_str(), "null" | "true" | "false") || has_constant_key(v)),
+        _ => false,
+    }
+}
+
+/// Reject a symbol or key that no quoted name can spell.
+fn eu_unquotable(s: &str) -> Option<Rejection> {
+    s.contains('\'').then(|| {
+        Rejection::new(format!(
+            "the name {s:?} contains a single quote, which no eucalypt name can"
+        ))
+        .with_notes(["convert the symbol to a string first with 'str', or choose another format"])
+    })
 }
 
 /// Convert an `EuValue` to a `pretty` document for rendering.
-fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
+///
+/// With `captured` the constants are spelled as intrinsics, because some
+/// block key takes one of their names.
+fn eu_to_doc(val: &EuValue, captured: bool) -> RcDoc<'static> {
     match val {
-        EuValue::Null => RcDoc::text("null"),
-        EuValue::Bool(b) => RcDoc::text(if *b { "true" } else { "false" }),
-        EuValue::Sym(s) => RcDoc::text(format!(":{s}")),
+        EuValue::Null => RcDoc::text(if captured { "__NULL" } else { "null" }),
+        EuValue::Bool(b) => RcDoc::text(match (*b, captured) {
+            (true, false) => "true",
+            (false, false) => "false",
+            (true, true) => "__TRUE",
+            (false, true) => "__FALSE",
+        }),
+        EuValue::Sym(s) => RcDoc::text(format!(":{}", eu_name(s))),
         EuValue::Str(s) => RcDoc::text(eu_quote_str(s)),
-        EuValue::Num(n) => RcDoc::text(format!("{n}")),
-        EuValue::ZonedDateTime(dt) => RcDoc::text(eu_quote_str(&format!("{dt}"))),
+        EuValue::Num(n) => RcDoc::text(eu_number(n)),
+        EuValue::ZonedDateTime(dt) => RcDoc::text(format!("t\"{}\"", dt.to_rfc3339())),
         EuValue::Array(items) => {
             if items.is_empty() {
                 return RcDoc::text("[]");
             }
-            let docs: Vec<RcDoc<'static>> = items.iter().map(eu_to_doc).collect();
+            let docs: Vec<RcDoc<'static>> = items.iter().map(|v| eu_to_doc(v, captured)).collect();
             let body = RcDoc::intersperse(docs, RcDoc::text(",").append(RcDoc::line()));
             RcDoc::text("[")
                 .append(RcDoc::line_().append(body).append(RcDoc::line_()).nest(2))
@@ -98,9 +176,9 @@ fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
             let docs: Vec<RcDoc<'static>> = pairs
                 .iter()
                 .map(|(k, v)| {
-                    RcDoc::text(format!("{k}:"))
+                    RcDoc::text(format!("{}:", eu_name(k)))
                         .append(RcDoc::space())
-                        .append(eu_to_doc(v))
+                        .append(eu_to_doc(v, captured))
                 })
                 .collect();
             let body = RcDoc::intersperse(docs, RcDoc::text(",").append(RcDoc::line()));
@@ -119,7 +197,7 @@ fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
 
 /// Render an `EuValue` as a eucalypt-syntax string.
 fn render_eu_value(val: &EuValue) -> Result<String, RenderError> {
-    let doc = eu_to_doc(val);
+    let doc = eu_to_doc(val, has_constant_key(val));
     let mut buf = Vec::new();
     doc.render(80, &mut buf)
         .map_err(|e| RenderError::Serialisation(format!("failed to render eu value: {e}")))?;
@@ -150,7 +228,21 @@ impl Emitter for EuEmitter<'_> {
     fn unacceptable(&self, event: &Event) -> Option<Rejection> {
         // eucalypt block keys are names, so anything that is not a symbol or
         // a string cannot be written back as eucalypt source that re-parses.
-        super::unrepresentable_key("eucalypt block", self.accum.expecting_key(), event)
+        super::unrepresentable_key("eucalypt block", self.accum.expecting_key(), event).or_else(
+            || match event {
+                Event::OutputScalar(_, Primitive::Str(s)) if self.accum.expecting_key() => {
+                    eu_unquotable(s)
+                }
+                _ => None,
+            },
+        )
+    }
+
+    fn unrepresentable(&self, primitive: &Primitive) -> Option<Rejection> {
+        match primitive {
+            Primitive::Sym(s) => eu_unquotable(s),
+            _ => None,
+        }
     }
 
     fn emit(&mut self, event: Event) -> Result<(), RenderError> {
-- 
2.43.0


From 5b4195fe3f095d869ce9045d5d500135c3b3e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 27/58] fix: EDN floats keep their type and unspellable
 keywords are reported

---
 src/export/edn.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/export/edn.rs b/src/export/edn.rs
index 022af00..4d184ac 100644
--- a/src/export/edn.rs
+++ b/src/export/edn.rs
@@ -2,9 +2,9 @@
 
 use super::error::RenderError;
 use super::table::{AsKey, FromPairs, FromPrimitive, FromVec, TableAccumulator};
-use crate::eval::emit::{Emitter, Event, RenderMetadata};
+use crate::eval::emit::{Emitter, Event, Rejection, RenderMetadata};
 use crate::eval::primitive::Primitive;
-use edn_format::{emit_str, Keyword, Value};
+use edn_format::{parse_str, Keyword, Value};
 use num_bigint::BigInt;
 use ordered_float::OrderedFloat;
 use std::io::Write;
@@ -58,6 +58,27 @@ impl FromPairs<Value, Value> for Value {
     }
 }
 
+/// Spell a value as EDN.
+///
+/// As `edn_format` does, except that a float always has a point or an
+/// exponent: `1` is an integer in EDN, and a long run of digits an integer
+/// too large to read.
+fn edn_text(value: &Value) -> String {
+    let items = |xs: &[Value]| xs.iter().map(edn_text).collect::<Vec<_>>().join(" ");
+    match value {
+        Value::Float(f) => format!("{:?}", f.into_inner()),
+        Value::Vector(xs) => format!("[{}]", items(xs)),
+        Value::Map(m) => format!(
+            "{{{}}}",
+            m.iter()
+                .map(|(k, v)| format!("{} {}", edn_text(k), edn_text(v)))
+                .collect::<Vec<_>>()
+                .join(" ")
+        ),
+        other => other.to_string(),
+    }
+}
+
 /// Emitter for EDN
 pub struct EdnEmitter<'a> {
     accum: TableAccumulator<Value, Value>,
@@ -74,10 +95,30 @@ impl<'a> EdnEmitter<'a> {
 }
 
 impl Emitter for EdnEmitter<'_> {
+    fn format_name(&self) -> &'static str {
+        "EDN"
+    }
+
+    fn unrepresentable(&self, primitive: &Primitive) -> Option<Rejection> {
+        let Primitive::Sym(s) = primitive else {
+            return None;
+        };
+        let keyword = Value::Keyword(Keyword::from_name(s));
+        match parse_str(&format!(":{s}")) {
+            Ok(v) if v == keyword => None,
+            _ => Some(
+                Rejection::new(format!(
+                    "the symbol {s:?} cannot be spelled as an EDN keyword"
+                ))
+                .with_notes(["rename the key, or convert the symbol to a string first with 'str'"]),
+            ),
+        }
+    }
+
     fn emit(&mut self, event: Event) -> Result<(), RenderError> {
         self.accum.consume(event);
         if let Some(result) = self.accum.result() {
-            writeln!(self.out, "{}", emit_str(result))?;
+            writeln!(self.out, "{}", edn_text(result))?;
         }
         Ok(())
     }
-- 
2.43.0


From c8bda2632f5a52c8d4bf5cd59bcc3dc5e347fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 28/58] fix: TOML blocks nested in mixed lists are written
 inline; small negative offsets keep their instant

---
 src/export/toml.rs | 88 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 86 insertions(+), 2 deletions(-)

diff --git a/src/export/toml.rs b/src/export/toml.rs
index d3b1cd0..1fe5cb7 100644
--- a/src/export/toml.rs
+++ b/src/export/toml.rs
@@ -98,7 +98,15 @@ impl FromPrimitive for Value {
                 // `to_rfc3339` always produces a form TOML's Datetime parses,
                 // so the fallback is unreachable; carry the timestamp as a
                 // string rather than aborting if that ever stops holding.
-                match Datetime::from_str(rfc3339.as_str()) {
+                let datetime = match Datetime::from_str(rfc3339.as_str()) {
+                    // Datetime drops the sign of an offset under an hour
+                    // west of UTC; the same instant in UTC survives.
+                    Ok(d) if d.to_string() != rfc3339 => {
+                        Datetime::from_str(&dt.with_timezone(&chrono::Utc).to_rfc3339())
+                    }
+                    other => other,
+                };
+                match datetime {
                     Ok(d) => Value::Datetime(d),
                     Err(_) => Value::String(rfc3339),
                 }
@@ -119,6 +127,82 @@ impl FromPairs<String, Value> for Value {
     }
 }
 
+/// Whether the value has a block within a list in a way that the serialiser
+/// cannot lay out: it writes tables in lists as `[[sections]]`, so they come
+/// out as garbage in a list that is nested or holds anything else.
+fn needs_inline_tables(value: &Value) -> bool {
+    fn has_table(v: &Value) -> bool {
+        match v {
+            Value::Table(_) => true,
+            Value::Array(items) => items.iter().any(has_table),
+            _ => false,
+        }
+    }
+    match value {
+        Value::Array(items) if !items.iter().all(Value::is_table) => items.iter().any(has_table),
+        Value::Array(items) => items.iter().any(needs_inline_tables),
+        Value::Table(entries) => entries.iter().any(|(_, v)| needs_inline_tables(v)),
+        _ => false,
+    }
+}
+
+/// A `key = value` pair with any tables in the value written inline.
+fn inline_entry(key: &str, value: &Value) -> String {
+    let bare = !key.is_empty()
+        && key
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
+    if bare {
+        format!("{key} = {}", inline(value))
+    } else {
+        format!("{} = {}", inline_string(key), inline(value))
+    }
+}
+
+fn inline_string(s: &str) -> String {
+    let mut out = String::from("\"");
+    for c in s.chars() {
+        match c {
+            '"' | '\\' => {
+                out.push('\\');
+                out.push(c);
+            }
+            c if c.is_control() => out.push_str(&format!("\\u{:04X}", c as u32)),
+            c => out.push(c),
+        }
+    }
+    out.push('"');
+    out
+}
+
+fn inline(value: &Value) -> String {
+    match value {
+        Value::Array(items) => {
+            let items: Vec<String> = items.iter().map(inline).collect();
+            format!("[{}]", items.join(", "))
+        }
+        Value::Table(entries) if entries.is_empty() => "{}".to_string(),
+        Value::Table(entries) => {
+            let entries: Vec<String> = entries.iter().map(|(k, v)| inline_entry(k, v)).collect();
+            format!("{{ {} }}", entries.join(", "))
+        }
+        Value::String(s) => inline_string(s),
+        scalar => scalar.to_string(),
+    }
+}
+
+/// Spell a whole value as TOML.
+fn toml_text(value: &Value) -> String {
+    match value {
+        Value::Table(entries) if needs_inline_tables(value) => entries
+            .iter()
+            .map(|(k, v)| format!("{}\n", inline_entry(k, v)))
+            .collect(),
+        other if needs_inline_tables(other) => inline(other),
+        other => other.to_string(),
+    }
+}
+
 /// Currently basic TOML emitter (no tags yet) for bootstrapping
 pub struct TomlEmitter<'a> {
     accum: TableAccumulator<String, Value>,
@@ -150,7 +234,7 @@ impl Emitter for TomlEmitter<'_> {
     fn emit(&mut self, event: Event) -> Result<(), RenderError> {
         self.accum.consume(event);
         if let Some(result) = self.accum.result() {
-            writeln!(self.out, "{result}")?;
+            writeln!(self.out, "{}", toml_text(result))?;
         }
         Ok(())
     }
-- 
2.43.0


From 1e1777fd771a471d9888b87a44d83c0646f8eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 29/58] fix: html output drops no content and closes void and
 raw-text elements properly

---
 src/export/html.rs   |  4 +++-
 src/export/markup.rs | 43 ++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index dd8dfd8..ac264f1 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -18,7 +18,9 @@ impl Serialize for Element {
     where
         S: Serializer,
     {
-        let tag_name = QualName::new(None, ns!(), LocalName::from(self.tag()));
+        // In the html namespace, so that void elements get no end tag and the
+        // text of scripts and styles is not escaped.
+        let tag_name = QualName::new(None, ns!(html), LocalName::from(self.tag()));
         let keys: Vec<_> = self
             .attrs()
             .iter()
diff --git a/src/export/markup.rs b/src/export/markup.rs
index a0b409b..74101ec 100644
--- a/src/export/markup.rs
+++ b/src/export/markup.rs
@@ -88,6 +88,13 @@ impl Expectation {
     pub fn feed_str(&mut self, value: String) {
         match self {
             Expectation::EmptyElement => *self = Expectation::TaggedElement(value),
+            Expectation::TaggedElement(tag) => {
+                *self = Expectation::OpenElement(Element::new(
+                    std::mem::take(tag),
+                    vec![],
+                    vec![Item::Content(value)],
+                ))
+            }
             Expectation::OpenElement(e) => e.content.push(Item::Content(value)),
             Expectation::EvenAttrAccumulation(attrs) => {
                 *self = Expectation::OddAttrAccumulation(attrs.clone(), value)
@@ -98,7 +105,6 @@ impl Expectation {
                     Expectation::EvenAttrAccumulation(attrs.to_vec())
                 }
             }
-            _ => {}
         }
     }
 
@@ -111,8 +117,16 @@ impl Expectation {
 
     /// Feed a child element to the current expectation
     pub fn feed_element(&mut self, element: Element) {
-        if let Expectation::OpenElement(e) = self {
-            e.content.push(Item::Element(element))
+        match self {
+            Expectation::TaggedElement(tag) => {
+                *self = Expectation::OpenElement(Element::new(
+                    std::mem::take(tag),
+                    vec![],
+                    vec![Item::Element(element)],
+                ))
+            }
+            Expectation::OpenElement(e) => e.content.push(Item::Element(element)),
+            _ => {}
         }
     }
 }
@@ -164,6 +178,29 @@ where
                 "the value to render is a single scalar, but markup output \
                  needs a hiccup element — a list whose first item is the tag",
             )),
+            // A block is an attribute block only directly after the tag, and
+            // a list is an element only where contents are: anywhere else
+            // there is nowhere for it to go in the output.
+            Event::OutputBlockStart(_)
+                if !matches!(self.stack.last(), Some(Expectation::TaggedElement(_))) =>
+            {
+                Some(markup_rejection(
+                    "a block is only allowed straight after the tag, as the \
+                     element's attributes",
+                ))
+            }
+            Event::OutputSequenceStart(_)
+                if !at_root
+                    && !matches!(
+                        self.stack.last(),
+                        Some(Expectation::TaggedElement(_)) | Some(Expectation::OpenElement(_))
+                    ) =>
+            {
+                Some(markup_rejection(
+                    "a list is only allowed among an element's contents, not \
+                     as its tag or within its attributes",
+                ))
+            }
             // Guards for the two shapes that previously reached a panic!
             // inside `emit`. Both mean an attribute block was left open
             // where an element was expected.
-- 
2.43.0


From 8625ec9c34ce7824b864475f7042988a58a0e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 30/58] fix: stream imports keep key order and only strip line
 terminators

---
 src/eval/stg/json_to_stg.rs | 38 +++++++++++++++++++++++++------------
 src/import/stream.rs        | 22 +++++++++++----------
 2 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/eval/stg/json_to_stg.rs b/src/eval/stg/json_to_stg.rs
index e244c36..adbb78a 100644
--- a/src/eval/stg/json_to_stg.rs
+++ b/src/eval/stg/json_to_stg.rs
@@ -1,31 +1,45 @@
-//! Convert serde_json::Value to STG syntax
+//! Convert JSON values to STG syntax
 //!
 //! Used by stream producers to convert JSON values into STG syntax
 //! that can be loaded directly into the VM heap.
 
 use std::rc::Rc;
 
-use serde_json::Value;
+use indexmap::IndexMap;
+use serde::Deserialize;
+use serde_json::Number;
 
 use super::syntax::{
     dsl::{self, block, cons, letrec_, local, lref, nil, pair, unit, value},
     LambdaForm, StgSyn,
 };
 
-/// Convert a serde_json Value to STG syntax.
-pub fn json_to_stg(val: &Value) -> Rc<StgSyn> {
+/// A JSON value whose objects keep their keys in source order.
+#[derive(Debug, Deserialize)]
+#[serde(untagged)]
+pub enum JsonValue {
+    Null,
+    Bool(bool),
+    Number(Number),
+    String(String),
+    Array(Vec<JsonValue>),
+    Object(IndexMap<String, JsonValue>),
+}
+
+/// Convert a JSON value to STG syntax.
+pub fn json_to_stg(val: &JsonValue) -> Rc<StgSyn> {
     match val {
-        Value::Null => unit(),
-        Value::Bool(b) => dsl::bool_(*b),
-        Value::Number(n) => dsl::box_num(n.clone()),
-        Value::String(s) => dsl::box_str(s.as_str()),
-        Value::Array(items) => json_array_to_stg(items),
-        Value::Object(map) => json_object_to_stg(map),
+        JsonValue::Null => unit(),
+        JsonValue::Bool(b) => dsl::bool_(*b),
+        JsonValue::Number(n) => dsl::box_num(n.clone()),
+        JsonValue::String(s) => dsl::box_str(s.as_str()),
+        JsonValue::Array(items) => json_array_to_stg(items),
+        JsonValue::Object(map) => json_object_to_stg(map),
     }
 }
 
 /// Convert a JSON array to an STG list.
-fn json_array_to_stg(items: &[Value]) -> Rc<StgSyn> {
+fn json_array_to_stg(items: &[JsonValue]) -> Rc<StgSyn> {
     if items.is_empty() {
         return nil();
     }
@@ -43,7 +57,7 @@ fn json_array_to_stg(items: &[Value]) -> Rc<StgSyn> {
 }
 
 /// Convert a JSON object to an STG block.
-fn json_object_to_stg(map: &serde_json::Map<String, Value>) -> Rc<StgSyn> {
+fn json_object_to_stg(map: &IndexMap<String, JsonValue>) -> Rc<StgSyn> {
     if map.is_empty() {
         // Empty block: BLOCK(NIL, no-index)
         let bindings: Vec<LambdaForm> = vec![value(nil()), value(block(lref(0)))];
diff --git a/src/import/stream.rs b/src/import/stream.rs
index c9d9847..fea4f80 100644
--- a/src/import/stream.rs
+++ b/src/import/stream.rs
@@ -8,9 +8,11 @@ use std::fs::File;
 use std::io::{BufRead, BufReader};
 use std::rc::Rc;
 
+use indexmap::IndexMap;
+
 use crate::common::sourcemap::Smid;
 use crate::eval::error::ExecutionError;
-use crate::eval::stg::json_to_stg::json_to_stg;
+use crate::eval::stg::json_to_stg::{json_to_stg, JsonValue};
 use crate::eval::stg::stream::LazyProducer;
 use crate::eval::stg::syntax::dsl;
 use crate::eval::stg::syntax::StgSyn;
@@ -46,7 +48,7 @@ impl LazyProducer for JsonlProducer {
                     }
                     return Some(
                         serde_json::from_str(trimmed)
-                            .map(|v: serde_json::Value| json_to_stg(&v))
+                            .map(|v: JsonValue| json_to_stg(&v))
                             .map_err(|e| {
                                 ExecutionError::Panic(
                                     Smid::default(),
@@ -102,14 +104,11 @@ impl LazyProducer for CsvProducer {
         };
 
         // Build a JSON object from headers + values, then convert to STG
-        let mut map = serde_json::Map::new();
+        let mut map = IndexMap::new();
         for (header, value) in self.headers.iter().zip(record.iter()) {
-            map.insert(
-                header.to_string(),
-                serde_json::Value::String(value.to_string()),
-            );
+            map.insert(header.to_string(), JsonValue::String(value.to_string()));
         }
-        Some(Ok(json_to_stg(&serde_json::Value::Object(map))))
+        Some(Ok(json_to_stg(&JsonValue::Object(map))))
     }
 
     /// Impure: owns an open file descriptor whose offset is shared with
@@ -147,8 +146,11 @@ impl LazyProducer for TextProducer {
         match self.reader.read_line(&mut self.line_buf) {
             Ok(0) => None, // EOF
             Ok(_) => {
-                // Strip trailing newline
-                let line = self.line_buf.trim_end_matches('\n').trim_end_matches('\r');
+                // Strip the line terminator: "\n" or "\r\n"
+                let line = match self.line_buf.strip_suffix('\n') {
+                    Some(line) => line.strip_suffix('\r').unwrap_or(line),
+                    None => self.line_buf.as_str(),
+                };
                 Some(Ok(dsl::box_str(line)))
             }
             Err(e) => Some(Err(ExecutionError::Io(e))),
-- 
2.43.0


From b5c261690dfeceb158ac4afa08eb371a75b10307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 31/58] fix: xml import reports unclosed and empty documents
 and keeps CDATA

---
 src/import/xml.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/import/xml.rs b/src/import/xml.rs
index 5452c08..958ea44 100644
--- a/src/import/xml.rs
+++ b/src/import/xml.rs
@@ -138,6 +138,22 @@ impl<'src> XmlImporter<'src> {
                         }
                     }
                 }
+                Ok(Event::CData(event)) => {
+                    let decoded = event.decode().map_err(|e| self.to_source_error(e))?;
+                    text_buf.push_str(&decoded);
+                }
+                Ok(Event::Eof) => {
+                    let message = if stack.is_empty() {
+                        "No top-level element"
+                    } else {
+                        "Unclosed element"
+                    };
+                    return Err(SourceError::InvalidXml(
+                        message.to_string(),
+                        self.file_id,
+                        self.span(),
+                    ));
+                }
                 Err(e) => return Err(self.to_source_error(e)),
                 _ => (),
             }
-- 
2.43.0


From 642973c992e2ce023585f272d72f1bce6e2dfcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 32/58] fix: EDN instants and TOML local times import

---
 src/import/edn.rs  | 4 ++--
 src/import/toml.rs | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/import/edn.rs b/src/import/edn.rs
index 016f85e..195e679 100644
--- a/src/import/edn.rs
+++ b/src/import/edn.rs
@@ -101,11 +101,11 @@ fn value_to_core(edn: &Value, file_id: usize, data_only: bool) -> Result<RcExpr,
             .map(acore::list),
         Value::Inst(dt) => {
             if data_only {
-                Ok(acore::str(dt.to_string()))
+                Ok(acore::str(dt.to_rfc3339()))
             } else {
                 Ok(acore::app(
                     acore::bif("ZDT.PARSE"),
-                    vec![acore::str(dt.to_string())],
+                    vec![acore::str(dt.to_rfc3339())],
                 ))
             }
         }
diff --git a/src/import/toml.rs b/src/import/toml.rs
index b7f635d..5a83e0c 100644
--- a/src/import/toml.rs
+++ b/src/import/toml.rs
@@ -41,7 +41,8 @@ fn to_core(value: &Value, file_id: usize, data_only: bool) -> Result<RcExpr, Sou
             .ok_or_else(|| SourceError::InvalidNumber(n.to_string(), file_id, Span::default())),
         Value::Boolean(b) => Ok(acore::bool_(*b)),
         Value::Datetime(d) => {
-            if data_only {
+            // A local time names no instant, so it can only be a string
+            if data_only || d.date.is_none() {
                 Ok(acore::str(d.to_string()))
             } else {
                 Ok(acore::app(
-- 
2.43.0


From c83760ab30186c20ab26b562719f252479acb5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 33/58] fix: names in TOML and EDN inputs are in scope

---
 src/import/edn.rs  | 6 ++++--
 src/import/toml.rs | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/import/edn.rs b/src/import/edn.rs
index 195e679..018d8e5 100644
--- a/src/import/edn.rs
+++ b/src/import/edn.rs
@@ -2,6 +2,8 @@
 
 use std::iter;
 
+use indexmap::IndexMap;
+
 use super::error::SourceError;
 use crate::{
     common::sourcemap::SourceMap,
@@ -92,8 +94,8 @@ fn value_to_core(edn: &Value, file_id: usize, data_only: bool) -> Result<RcExpr,
                     (_, Err(e)) => Err(e),
                 }
             })
-            .collect::<Result<Vec<(String, RcExpr)>, SourceError>>()
-            .map(acore::block),
+            .collect::<Result<IndexMap<String, RcExpr>, SourceError>>()
+            .map(|m| acore::default_let(m.into_iter().collect())),
         Value::Set(xs) => xs
             .iter()
             .map(|v| value_to_core(v, file_id, data_only))
diff --git a/src/import/toml.rs b/src/import/toml.rs
index 5a83e0c..de7010b 100644
--- a/src/import/toml.rs
+++ b/src/import/toml.rs
@@ -60,6 +60,6 @@ fn to_core(value: &Value, file_id: usize, data_only: bool) -> Result<RcExpr, Sou
             .iter()
             .map(|(k, v)| to_core(v, file_id, data_only).map(|expr| (k.clone(), expr)))
             .collect::<Result<Vec<(String, RcExpr)>, SourceError>>()
-            .map(acore::block),
+            .map(acore::default_let),
     }
 }
-- 
2.43.0


From 7e5bdb436d5a4b4dbc9e60b1db0409eb0c799a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:07 +0000
Subject: [PATCH 34/58] fix: a strict alias no longer evaluates a single-use
 binding twice

---
 src/eval/stg/compiler.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/eval/stg/compiler.rs b/src/eval/stg/compiler.rs
index c799c3f..c3a6e9a 100644
--- a/src/eval/stg/compiler.rs
+++ b/src/eval/stg/compiler.rs
@@ -967,8 +967,14 @@ impl ProtoSyntax for ProtoLet {
                 b.demand,
                 binding_self_recurse,
             )?;
-            // Mark strict non-recursive bindings for eager Seq evaluation
-            if b.demand.strictness == Strictness::Strict && !b.demand.recursive {
+            // Mark strict non-recursive bindings for eager Seq evaluation.
+            // A plain alias is never marked: once the optimiser has resolved
+            // it, the Seq and the body would each enter the binding it stands
+            // for, evaluating it twice if it is single-use (not updated).
+            if b.demand.strictness == Strictness::Strict
+                && !b.demand.recursive
+                && !matches!(&*b.expr.inner, Expr::Var(_, _))
+            {
                 if let Ref::L(n) = index {
                     binder.mark_strict(n);
                 }
-- 
2.43.0


From a35170352dbee96f9c1334ab9b1e848ec7f6268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 35/58] fix: tagged values whose content is computed can be
 rendered

---
 src/eval/stg/render.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/eval/stg/render.rs b/src/eval/stg/render.rs
index d8f5d30..8eb1fc1 100644
--- a/src/eval/stg/render.rs
+++ b/src/eval/stg/render.rs
@@ -57,6 +57,17 @@ impl StgIntrinsic for Render {
             ),
         );
 
+        // in [tag] [native]: the content of either box may not be evaluated yet
+        let tagged_native = || {
+            force(
+                local(0), // [tag'] [tag] [native]
+                force(
+                    local(2), // [native'] [tag'] [tag] [native]
+                    force(call::bif::emit_tag_native(lref(1), lref(0)), unit()),
+                ),
+            )
+        };
+
         let render = lambda(
             1,
             letrec_(
@@ -73,7 +84,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tag] [num] [tagfn tag] [boxnum]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    tagged_native(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [num] [tagfn tag] [boxnum]
                             ),
@@ -84,7 +95,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tag] [sym] [tagfn tag] [boxsym]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    tagged_native(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [sym] [tagfn tag] [boxsym]
                             ),
@@ -95,7 +106,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tagstr] [str] [tagfn tag] [boxstr]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    tagged_native(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [str] [boxstr] [tagfn tag]
                             ),
@@ -106,7 +117,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tagstr] [str] [tagfn tag] [boxtd]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    tagged_native(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [str] [boxtd] [tagfn tag]
                             ),
@@ -117,7 +128,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tag] [zdt] [tagfn tag] [boxzdt]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    tagged_native(),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [zdt] [tagfn tag] [boxzdt]
                             ),
@@ -130,7 +141,10 @@ impl StgIntrinsic for Render {
                                     local(3),
                                     vec![(
                                         DataConstructor::BoxedString.tag(), // [tagstr] [h t] [tagfn tag]
-                                        force(call::bif::emit_tag_seq_start(lref(0)), unit()),
+                                        force(
+                                            local(0),
+                                            force(call::bif::emit_tag_seq_start(lref(0)), unit()),
+                                        ),
                                     )],
                                     call::bif::emit_seq_start(),
                                 ), // [()] [h t] [tagfn tag] [cons],
@@ -144,7 +158,10 @@ impl StgIntrinsic for Render {
                                     local(1),
                                     vec![(
                                         DataConstructor::BoxedString.tag(), // // [tagstr] [] [lcons] [tagfn tag]
-                                        force(call::bif::emit_tag_seq_start(lref(0)), unit()),
+                                        force(
+                                            local(0),
+                                            force(call::bif::emit_tag_seq_start(lref(0)), unit()),
+                                        ),
                                     )],
                                     call::bif::emit_seq_start(),
                                 ),
@@ -158,7 +175,10 @@ impl StgIntrinsic for Render {
                                     local(3),
                                     vec![(
                                         DataConstructor::BoxedString.tag(), // [tagstr] [items index] [tagfn tag]
-                                        force(call::bif::emit_tag_block_start(lref(0)), unit()),
+                                        force(
+                                            local(0),
+                                            force(call::bif::emit_tag_block_start(lref(0)), unit()),
+                                        ),
                                     )],
                                     call::bif::emit_block_start(), // [()] [items index] [tagfn tag]
                                 ),
-- 
2.43.0


From e9a85ea815daf6cd103f78a251b30bda85a21ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 36/58] fix: the format of .xml inputs is inferred like the
 others

---
 src/syntax/input.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/syntax/input.rs b/src/syntax/input.rs
index 437c5a0..5a59a12 100644
--- a/src/syntax/input.rs
+++ b/src/syntax/input.rs
@@ -158,6 +158,7 @@ impl Locator {
             "yaml" => Some(String::from("yaml")),
             "yml" => Some(String::from("yaml")),
             "csv" => Some(String::from("csv")),
+            "xml" => Some(String::from("xml")),
             "eu" => Some(String::from("eu")),
             _ => None,
         }
-- 
2.43.0


From 13eaa7f13a5a56ddc4b586c3cfeaa11188da97c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 37/58] fix: resolve each import from its own file, and reuse
 one only where it is in scope

An import is looked for next to the importing file first and then along the
library path, for each importing file on its own: previously the library path
and working directory took precedence, and imports spelt alike in different
directories were taken for the same file. A repeated import was dropped or
aliased to an earlier one even where the names of that one are not in scope.
---
 src/core/desugar/desugarer.rs | 262 +++++++++++++++++++++-------------
 src/core/desugar/rowan_ast.rs |  10 ++
 src/driver/source.rs          | 221 +++++++++++++++-------------
 src/syntax/import.rs          |   8 +-
 4 files changed, 301 insertions(+), 200 deletions(-)

diff --git a/src/core/desugar/desugarer.rs b/src/core/desugar/desugarer.rs
index ffc594a..1d1e4c8 100644
--- a/src/core/desugar/desugarer.rs
+++ b/src/core/desugar/desugarer.rs
@@ -90,36 +90,55 @@ pub struct Desugarer<'smap> {
     /// declarations.  Consulted during monadic block desugaring to inject
     /// `__type_hint` metadata on binding values.
     monad_type_registry: HashMap<String, String>,
-    /// Import guard — direct imports (depth == 1, i.e. imported directly
-    /// by the top-level unit being desugared).
-    ///
-    /// Files in this set are NOT deduplicated when re-imported directly again
-    /// (because a file may intentionally be imported at multiple positions in the
-    /// same unit to bring its bindings into different scopes).  They ARE
-    /// suppressed if encountered again as a *nested* import (depth > 1), which
-    /// is the classic diamond-dependency case.
-    ///
-    /// The key is `(file_id, import_name)`.
-    import_seen_direct: HashSet<(usize, Option<String>)>,
-    /// Import guard — nested (transitive) imports (depth > 1).
-    ///
-    /// Files in this set are suppressed unconditionally on any subsequent
-    /// encounter, whether direct or nested.  This handles the case where a
-    /// transitive dependency is pulled in first and a later direct import of
-    /// the same file would create a duplicate.
-    import_seen_nested: HashSet<(usize, Option<String>)>,
-    /// Rule 3 — alias table for same-file-different-name direct imports.
-    ///
-    /// When a file is imported directly (depth == 1) under a name for the
-    /// first time, its `(file_id → name)` is recorded here.  A subsequent
-    /// direct import of the same file under a *different* name emits an
-    /// alias binding `let { new_name = old_name }` instead of re-desugaring.
-    import_first_direct: HashMap<usize, String>,
-    /// Nesting depth of named imports.  Incremented when entering a named
-    /// import (`a=a.eu`), decremented on exit.  When > 0, transitive
-    /// imports are "namespaced" — their bindings won't be visible at the
-    /// top level, so they must not suppress later unnamed encounters.
-    named_import_depth: usize,
+    /// Import guard — the imports whose bindings are in scope at the point
+    /// being desugared, outermost first.
+    visible_imports: Vec<ImportFrame>,
+    /// Where each import of each file was found, if other than as written
+    resolved_imports: Option<&'smap ImportResolutions>,
+}
+
+/// Where the imports of each file (by file id) were found, for those which
+/// are not simply found as written.
+pub type ImportResolutions = HashMap<usize, HashMap<Locator, Locator>>;
+
+/// Something which brings names into scope
+enum ImportFrame {
+    /// Bindings of an imported file
+    Import {
+        file: usize,
+        format: String,
+        name: Option<String>,
+        /// The names it binds, other than by importing in turn
+        names: Vec<String>,
+    },
+    /// Any other bindings
+    Barrier,
+}
+
+/// How a file to be imported is already in scope
+enum VisibleImport {
+    /// Under the very name
+    Same,
+    /// Under another name
+    Alias(String),
+}
+
+/// The names bound by the (possibly nested) lets around the body of an
+/// imported unit.
+fn names_bound_around_body(expr: &RcExpr) -> Vec<String> {
+    let mut names = vec![];
+    let mut expr = expr.clone();
+    loop {
+        expr = match &*expr.inner {
+            Expr::Meta(_, e, _) => e.clone(),
+            Expr::Let(_, scope, _) => {
+                names.extend(scope.pattern.iter().map(|b| b.name.clone()));
+                scope.body.clone()
+            }
+            _ => break,
+        };
+    }
+    names
 }
 
 impl<'smap> Desugarer<'smap> {
@@ -144,13 +163,17 @@ impl<'smap> Desugarer<'smap> {
             monad_registry: HashMap::new(),
             monad_namespace_registry: HashMap::new(),
             monad_type_registry: HashMap::new(),
-            import_seen_direct: HashSet::new(),
-            import_seen_nested: HashSet::new(),
-            import_first_direct: HashMap::new(),
-            named_import_depth: 0,
+            visible_imports: Vec::new(),
+            resolved_imports: None,
         }
     }
 
+    /// Use the loader's record of where each file's imports were found
+    pub fn with_resolved_imports(mut self, resolved: &'smap ImportResolutions) -> Self {
+        self.resolved_imports = Some(resolved);
+        self
+    }
+
     /// Register a monad spec for a bracket pair.
     ///
     /// Called when a bracket pair declaration with `bind` and `return` metadata
@@ -267,25 +290,21 @@ impl<'smap> Desugarer<'smap> {
     /// from auto-discovering targets that belong to imported files).
     ///
     /// Returns `Ok(None)` when the import is suppressed by the import
-    /// guard (diamond-deduplication semantics):
-    ///
-    /// - A file first seen **transitively** (depth > 1) is suppressed on
-    ///   any subsequent encounter (direct or nested).
-    /// - A file first seen **directly** (depth == 1) is suppressed only
-    ///   when encountered again as a nested import.  Multiple direct
-    ///   imports of the same file are allowed because each may serve a
-    ///   different scope position in the unit.
+    /// guard (diamond-deduplication semantics): the same file, imported
+    /// under the same name, is already in scope and nothing in between
+    /// binds any of its names, so desugaring it again would change nothing.
     ///
-    /// **Rule 3**: when a file is imported directly a second time under a
-    /// *different* name, an alias binding is emitted instead of re-desugaring.
-    /// For example, if `lens=lens.eu` was already imported, a subsequent
-    /// `optics=lens.eu` emits `let { optics = lens }` referencing the
-    /// already-bound name.
+    /// When the file is in scope under a *different* name, an alias binding
+    /// is emitted instead of re-desugaring. For example, if `lens=lens.eu`
+    /// is in scope, `optics=lens.eu` emits `let { optics = lens }`
+    /// referencing the already-bound name.
     pub fn translate_import(
         &mut self,
         smid: Smid,
         import: Input,
     ) -> Result<Option<RcExpr>, CoreError> {
+        let import = self.resolve_import(import);
+
         // Look up content by exact Input key, falling back to locator match.
         // The fallback is needed when the same file is imported under multiple
         // names (eu-v0t6): the ImportGraph deduplicates by locator, so only the
@@ -293,69 +312,27 @@ impl<'smap> Desugarer<'smap> {
         let source_lookup = self.contents.get(&import).or_else(|| {
             self.contents
                 .iter()
-                .find(|(k, _)| k.locator() == import.locator())
+                .find(|(k, _)| k.locator() == import.locator() && k.format() == import.format())
                 .map(|(_, v)| v)
         });
         if let Some(source) = source_lookup {
             let file_id = source.file_id();
             let import_name = import.name().clone();
-            let guard_key = (file_id, import_name.clone());
-
-            // `file.len()` is the current nesting depth:
-            //   1 = direct import from the top-level unit
-            //   2+ = nested/transitive import
-            let is_nested = self.file.len() > 1;
-
-            // Rule 3: if this file was already imported *directly* under a
-            // different name, emit an alias binding rather than re-desugaring.
-            // This avoids duplicating content and prevents nested imports from
-            // being incorrectly suppressed on the second pass.
-            if !is_nested {
-                if let Some(first_name) = self.import_first_direct.get(&file_id).cloned() {
+
+            match self.visible_import(file_id, import.format(), &import_name) {
+                Some(VisibleImport::Same) => return Ok(None),
+                Some(VisibleImport::Alias(first_name)) => {
                     if let Some(new_name) = &import_name {
-                        if &first_name != new_name {
-                            let alias_rhs =
-                                RcExpr::from(Expr::Var(smid, Var::Free(first_name.clone())));
-                            return Ok(Some(alias_rhs.apply_name(smid, new_name)));
-                        }
+                        let alias_rhs = RcExpr::from(Expr::Var(smid, Var::Free(first_name)));
+                        self.push_import_frame(file_id, &import, vec![new_name.clone()]);
+                        return Ok(Some(alias_rhs.apply_name(smid, new_name)));
                     }
                 }
-            }
-
-            // Suppress if already seen transitively, OR if already seen
-            // directly and we're now inside a nested import.
-            if self.import_seen_nested.contains(&guard_key)
-                || (is_nested && self.import_seen_direct.contains(&guard_key))
-            {
-                return Ok(None);
-            }
-
-            // Record this import in the appropriate guard set.
-            // Only record nested imports when NOT inside a named import
-            // chain — namespaced bindings are invisible to sibling
-            // importers, so recording would incorrectly suppress later
-            // unnamed encounters of the same file.
-            if is_nested {
-                if self.named_import_depth == 0 {
-                    self.import_seen_nested.insert(guard_key);
-                }
-            } else {
-                self.import_seen_direct.insert(guard_key);
-                // Record the first direct named import for Rule 3 alias resolution.
-                if let Some(ref name) = import_name {
-                    self.import_first_direct
-                        .entry(file_id)
-                        .or_insert_with(|| name.clone());
-                }
+                None => {}
             }
 
             self.file.push(file_id);
-
-            // Track named import depth so transitive imports know their
-            // bindings will be namespaced.
-            if import.name().is_some() {
-                self.named_import_depth += 1;
-            }
+            let mark = self.import_mark();
 
             // Snapshot targets before desugaring the import so we can
             // identify which targets were added by the imported file.
@@ -369,9 +346,20 @@ impl<'smap> Desugarer<'smap> {
             self.imported_targets.extend(newly_added);
 
             if let Some(name) = import.name() {
-                self.named_import_depth -= 1;
+                // whatever the file itself imports is hidden behind the name
+                self.import_reset(mark);
                 expr = expr.apply_name(smid, name);
             }
+            // The outermost lets are those of the file's own imports
+            let imported: usize = self.visible_imports[mark..]
+                .iter()
+                .map(|frame| match frame {
+                    ImportFrame::Import { names, .. } => names.len(),
+                    ImportFrame::Barrier => 0,
+                })
+                .sum();
+            let names = names_bound_around_body(&expr).split_off(imported);
+            self.push_import_frame(file_id, &import, names);
 
             self.file.pop();
             Ok(Some(expr))
@@ -380,6 +368,80 @@ impl<'smap> Desugarer<'smap> {
         }
     }
 
+    /// The import as it was found by the loader
+    fn resolve_import(&self, import: Input) -> Input {
+        let found = self.file.last().and_then(|file| {
+            self.resolved_imports?
+                .get(file)?
+                .get(import.locator())
+                .cloned()
+        });
+        match found {
+            Some(locator) => Input::new(locator, import.name().clone(), import.format()),
+            None => import,
+        }
+    }
+
+    /// Find an import of the file which is in scope, under the same name or
+    /// another one.
+    fn visible_import(
+        &self,
+        file_id: usize,
+        format: &str,
+        name: &Option<String>,
+    ) -> Option<VisibleImport> {
+        let mut between: HashSet<&String> = HashSet::new();
+        let mut alias = None;
+        for frame in self.visible_imports.iter().rev() {
+            match frame {
+                ImportFrame::Barrier => break,
+                ImportFrame::Import {
+                    file: f,
+                    format: fmt,
+                    name: n,
+                    names,
+                } => {
+                    let shadowed = names.iter().any(|x| between.contains(x));
+                    if *f == file_id && fmt == format && !shadowed {
+                        if n == name {
+                            return Some(VisibleImport::Same);
+                        }
+                        if let (Some(n), Some(_), None) = (n, name, &alias) {
+                            alias = Some(VisibleImport::Alias(n.clone()));
+                        }
+                    }
+                    between.extend(names);
+                }
+            }
+        }
+        alias
+    }
+
+    fn push_import_frame(&mut self, file: usize, import: &Input, names: Vec<String>) {
+        self.visible_imports.push(ImportFrame::Import {
+            file,
+            format: import.format().to_string(),
+            name: import.name().clone(),
+            names,
+        });
+    }
+
+    /// Note the imports in scope, to be restored by `import_reset`.
+    pub fn import_mark(&self) -> usize {
+        self.visible_imports.len()
+    }
+
+    /// Note that other names are about to come into scope, so that imports
+    /// already in scope may be shadowed.
+    pub fn import_barrier(&mut self) {
+        self.visible_imports.push(ImportFrame::Barrier);
+    }
+
+    /// Forget the imports (and barriers) that have gone out of scope.
+    pub fn import_reset(&mut self, mark: usize) {
+        self.visible_imports.truncate(mark);
+    }
+
     /// Translate a chunk of parsed AST that has no imports
     pub fn translate_simple(
         &mut self,
diff --git a/src/core/desugar/rowan_ast.rs b/src/core/desugar/rowan_ast.rs
index 67f4d5e..7fca6c1 100644
--- a/src/core/desugar/rowan_ast.rs
+++ b/src/core/desugar/rowan_ast.rs
@@ -2633,6 +2633,7 @@ fn rowan_declaration_to_binding(
     }
 
     // Handle imports
+    let import_mark = desugarer.import_mark();
     let mut imports = Vec::new();
     if let Some(inputs) = metadata.imports {
         for input in inputs {
@@ -2644,6 +2645,7 @@ fn rowan_declaration_to_binding(
             }
         }
     }
+    desugarer.import_reset(import_mark);
 
     // Register monad spec from BracketBlockDef body (new-style: ⟦{}⟧: { :monad bind: f return: r })
     // The body is a block with :monad block metadata and bind/return declarations.
@@ -2819,6 +2821,7 @@ impl Desugarable for rowan_ast::Block {
         };
 
         // Handle imports
+        let import_mark = desugarer.import_mark();
         let mut imports = Vec::new();
         if let Some(inputs) = block_meta.imports {
             let meta_smid = metadata.as_ref().unwrap().smid();
@@ -2867,6 +2870,7 @@ impl Desugarable for rowan_ast::Block {
             .collect();
 
         desugarer.env_mut().push_keys(keys);
+        desugarer.import_barrier();
 
         // Convert declarations to bindings
         let bindings = self
@@ -2916,6 +2920,7 @@ impl Desugarable for rowan_ast::Block {
         // Embed in imports if required
         expr = imports.iter().rfold(expr, |acc, import| import.rebody(acc));
 
+        desugarer.import_reset(import_mark);
         desugarer.env_mut().pop();
         Ok(expr)
     }
@@ -3036,6 +3041,8 @@ impl Desugarable for rowan_ast::Unit {
             .collect();
 
         desugarer.env_mut().push_keys(keys);
+        let import_mark = desugarer.import_mark();
+        desugarer.import_barrier();
 
         // Convert declarations to bindings
         let bindings = self
@@ -3111,6 +3118,9 @@ impl Desugarable for rowan_ast::Unit {
         // Embed in imports if required
         expr = imports.iter().rfold(expr, |acc, import| import.rebody(acc));
 
+        // The unit's imports remain in scope for those it is merged with, but
+        // nothing from within its declarations does.
+        desugarer.import_reset(import_mark);
         desugarer.env_mut().pop();
         Ok(expr)
     }
diff --git a/src/driver/source.rs b/src/driver/source.rs
index 18d2bb7..181a179 100644
--- a/src/driver/source.rs
+++ b/src/driver/source.rs
@@ -3,6 +3,7 @@ use crate::core::binding::CoreBinding;
 use crate::core::binding::Scope;
 use crate::core::cook;
 use crate::core::desugar::desugarable::Desugarable;
+use crate::core::desugar::desugarer::ImportResolutions;
 use crate::core::desugar::{Content, Desugarer};
 use crate::core::error::CoreError;
 use crate::core::expr::{Expr, LetType, RcExpr};
@@ -39,11 +40,8 @@ pub enum ParsedAst {
 /// a full working copy of the repository).
 ///
 /// `load_tree` looks up the currently-loading file's cache path in
-/// `SourceLoader::git_context` and, if found, sets it as
-/// `SourceLoader::current_git_context` for the duration of loading that
-/// file's transitive imports; `SourceLoader::load` consults
-/// `current_git_context` to redirect plain relative `Locator::Fs` imports to
-/// the git cache instead of the local filesystem.
+/// `SourceLoader::git_context` and, if found, resolves that file's plain
+/// relative `Locator::Fs` imports to `Locator::Git` ones.
 #[cfg(not(target_arch = "wasm32"))]
 #[derive(Debug, Clone)]
 struct GitContext {
@@ -75,7 +73,7 @@ use codespan_reporting::files::SimpleFiles;
 use codespan_reporting::term::emit;
 use codespan_reporting::term::termcolor::{ColorChoice, NoColor, StandardStream};
 use std::io::{self, Read};
-use std::path::PathBuf;
+use std::path::{Component, PathBuf};
 use std::{collections::HashMap, path::Path};
 use std::{fs, iter};
 
@@ -140,6 +138,8 @@ pub struct SourceLoader {
     cores: HashMap<Input, RcExpr>,
     /// Import analysis
     imports: ImportGraph,
+    /// Where the imports of each file were found
+    import_resolutions: ImportResolutions,
     /// Core Units pending merge
     translation_units: HashMap<Input, TranslationUnit>,
     /// Units once merged
@@ -192,12 +192,6 @@ pub struct SourceLoader {
     /// absolute cache path — see [`GitContext`].
     #[cfg(not(target_arch = "wasm32"))]
     git_context: HashMap<PathBuf, GitContext>,
-    /// The git context active while loading the transitive imports of the
-    /// file currently being processed by `load_tree`, if any. Saved and
-    /// restored around that file's import loop, exactly like `lib_path`'s
-    /// push/pop of the importing file's directory — see [`GitContext`].
-    #[cfg(not(target_arch = "wasm32"))]
-    current_git_context: Option<GitContext>,
 }
 
 impl Default for SourceLoader {
@@ -209,6 +203,7 @@ impl Default for SourceLoader {
             asts: HashMap::new(),
             cores: HashMap::new(),
             imports: ImportGraph::default(),
+            import_resolutions: ImportResolutions::new(),
             translation_units: HashMap::new(),
             core: TranslationUnit::default(),
             source_map: SourceMap::new(),
@@ -224,12 +219,31 @@ impl Default for SourceLoader {
             early_type_aliases: HashMap::new(),
             #[cfg(not(target_arch = "wasm32"))]
             git_context: HashMap::new(),
-            #[cfg(not(target_arch = "wasm32"))]
-            current_git_context: None,
         }
     }
 }
 
+/// Remove `.` and (unless the result is a different file) `..` components.
+fn normalise_path(path: &Path) -> PathBuf {
+    let mut out = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::CurDir => {}
+            Component::ParentDir
+                if matches!(out.components().next_back(), Some(Component::Normal(_))) =>
+            {
+                out.pop();
+            }
+            other => out.push(other),
+        }
+    }
+    if path.exists() && !out.exists() {
+        path.to_path_buf()
+    } else {
+        out
+    }
+}
+
 impl SourceLoader {
     /// Create a fresh blank source loader
     pub fn new(lib_path: Vec<PathBuf>) -> Self {
@@ -240,6 +254,7 @@ impl SourceLoader {
             asts: HashMap::new(),
             cores: HashMap::new(),
             imports: ImportGraph::default(),
+            import_resolutions: ImportResolutions::new(),
             translation_units: HashMap::new(),
             core: TranslationUnit::default(),
             source_map: SourceMap::new(),
@@ -255,8 +270,6 @@ impl SourceLoader {
             early_type_aliases: HashMap::new(),
             #[cfg(not(target_arch = "wasm32"))]
             git_context: HashMap::new(),
-            #[cfg(not(target_arch = "wasm32"))]
-            current_git_context: None,
         }
     }
 
@@ -309,36 +322,6 @@ impl SourceLoader {
             return self.load_from_git(&url, &commit, &path, name, &format, alias_locator);
         }
 
-        // A plain relative filesystem import encountered while loading the
-        // transitive imports of a git-fetched file (`current_git_context` is
-        // set by `load_tree` for the duration) must itself be fetched from
-        // the same repository/commit — the cache only ever contains the
-        // individual files explicitly requested, not a full working copy of
-        // the repository, so ordinary filesystem resolution would either
-        // fail outright or (worse) silently pick up an unrelated same-named
-        // file from the local lib path.
-        #[cfg(not(target_arch = "wasm32"))]
-        if let Locator::Fs(path) = input.locator() {
-            if path.is_relative() {
-                if let Some(ctx) = self.current_git_context.clone() {
-                    let repo_path = ctx.repo_dir.join(path);
-                    // Git paths always use forward slashes regardless of host OS.
-                    let repo_path = repo_path.to_string_lossy().replace('\\', "/");
-                    let name = input.name().clone();
-                    let format = input.format().to_string();
-                    let alias_locator = input.locator().clone();
-                    return self.load_from_git(
-                        &ctx.url,
-                        &ctx.commit,
-                        &repo_path,
-                        name,
-                        &format,
-                        alias_locator,
-                    );
-                }
-            }
-        }
-
         let fmt = input.format();
 
         if fmt == "eu" {
@@ -352,26 +335,10 @@ impl SourceLoader {
 
     /// Fetch `path` from `url`@`commit` via the git cache, record its
     /// [`GitContext`] for transitive imports, load its content, and alias
-    /// `alias_locator` — the caller's original locator, either an explicit
-    /// `Locator::Git` or a plain relative `Locator::Fs` encountered inside a
-    /// git-fetched file — to the resulting file id.
-    ///
-    /// The alias matters twice over:
-    ///
-    /// - Desugar-phase import metadata (see `Extract<Input>` for `RcExpr` in
-    ///   `core::expr`) is derived independently from the source text and
-    ///   knows nothing of git-context redirection: a git-fetched file's own
-    ///   `{ import: "helpers.eu" }` re-extracts as a plain
-    ///   `Locator::Fs("helpers.eu")`, so [`Self::translate`]'s content
-    ///   lookup must be able to find the already-loaded content under that
-    ///   original locator too, not only under the resolved cache path.
-    /// - For `.eu` content, the *import graph node* itself is registered
-    ///   under `alias_locator` (via [`Self::load_tree_as`]) rather than the
-    ///   resolved cache path, so that a transitive import discovered inside
-    ///   this file becomes an edge from the *same* node the importer's own
-    ///   analysis already points at — keeping the whole git-fetched tree in
-    ///   one connected component reachable by `ImportGraph::unit_inputs`'s
-    ///   BFS from the top-level input.
+    /// `alias_locator` — the import's `Locator::Git` — to the resulting file
+    /// id, so that the content is found under the locator by which importers
+    /// (and the import graph) know it rather than only under the resolved
+    /// cache path.
     #[cfg(not(target_arch = "wasm32"))]
     fn load_from_git(
         &mut self,
@@ -402,8 +369,13 @@ impl SourceLoader {
             let alias_input = Input::new(alias_locator.clone(), name, format);
             self.load_tree_as(&Locator::Fs(cached_path), &alias_input)?
         } else {
-            let resolved = Input::new(Locator::Fs(cached_path), name, format);
-            self.load(&resolved)?
+            let resolved = Input::new(Locator::Fs(cached_path), name.clone(), format);
+            let file_id = self.load(&resolved)?;
+            if let Some(core) = self.cores.get(&resolved).cloned() {
+                let alias_input = Input::new(alias_locator.clone(), name, format);
+                self.cores.insert(alias_input, core);
+            }
+            file_id
         };
 
         self.locators.entry(alias_locator).or_insert(file_id);
@@ -505,34 +477,61 @@ impl SourceLoader {
 
         // Implement import analysis for Rowan AST
         let ast = self.asts.get(&file_id).expect("AST was just loaded");
-        let inputs = self.imports.analyse_rowan_ast(graph_input.clone(), ast)?;
-        self.imports.check_for_cycles()?;
-
-        // If this file was itself fetched from a git repository, set up its
-        // `GitContext` for the duration of loading its transitive imports —
-        // `load()` consults `current_git_context` to redirect plain
-        // relative `Locator::Fs` imports to the git cache instead of the
-        // local filesystem. Saved and restored exactly like the `lib_path`
-        // push/pop below. (`driver::source` is excluded entirely from
-        // wasm32 builds — see `driver::mod` — so no wasm32 fallback is
-        // needed here.)
+        let written = ImportGraph::scrape_rowan_ast_imports(ast)?;
+
+        // A plain relative import in a file fetched from a git repository is
+        // fetched from the same repository/commit — the cache only ever
+        // contains the individual files explicitly requested, not a full
+        // working copy, so ordinary filesystem resolution would either fail
+        // outright or (worse) silently pick up an unrelated same-named file.
+        // (`driver::source` is excluded entirely from wasm32 builds — see
+        // `driver::mod` — so no wasm32 fallback is needed here.)
         let git_ctx = match content_locator {
             Locator::Fs(path) => self.git_context.get(path).cloned(),
             _ => None,
         };
-        let saved_git_context = self.current_git_context.clone();
-        if git_ctx.is_some() {
-            self.current_git_context = git_ctx;
-        }
 
-        // Resolve imports relative to the importing file's directory.
-        //
-        // When a file at `dir/foo.eu` imports `sub/bar.eu`, the path
-        // `sub/bar.eu` should be resolved relative to `dir/` in addition
-        // to the global lib_path. We achieve this by temporarily extending
-        // the lib_path with the importing file's directory whilst loading
-        // its transitive imports.
+        // Find each import, preferring the importing file's own directory
+        // (or repository), and note where it was found so that every later
+        // phase identifies it the same way.
         let import_dir = self.find_source_dir(content_locator);
+        let mut inputs = Vec::with_capacity(written.len());
+        for input in written {
+            let found = match (input.locator(), &git_ctx) {
+                (Locator::Fs(path), Some(ctx)) if path.is_relative() => Some(Locator::Git {
+                    url: ctx.url.clone(),
+                    commit: ctx.commit.clone(),
+                    // Git paths always use forward slashes regardless of host OS.
+                    path: normalise_path(&ctx.repo_dir.join(path))
+                        .to_string_lossy()
+                        .replace('\\', "/"),
+                }),
+                (Locator::Fs(path), None) if path.is_relative() => {
+                    self.find_import(content_locator, import_dir.as_deref(), path)
+                }
+                _ => None,
+            };
+            match found {
+                Some(locator) if &locator != input.locator() => {
+                    inputs.push(Input::new(
+                        locator.clone(),
+                        input.name().clone(),
+                        input.format(),
+                    ));
+                    self.import_resolutions
+                        .entry(file_id)
+                        .or_default()
+                        .insert(input.locator().clone(), locator);
+                }
+                _ => inputs.push(input),
+            }
+        }
+        self.imports
+            .register_imports(graph_input.clone(), inputs.clone())?;
+        self.imports.check_for_cycles()?;
+
+        // Imports found nowhere else are looked for in the directories of
+        // the files which (transitively) import the importing file.
         if let Some(dir) = import_dir {
             self.lib_path.push(dir);
             for import_input in inputs {
@@ -545,11 +544,40 @@ impl SourceLoader {
             }
         }
 
-        self.current_git_context = saved_git_context;
-
         Ok(file_id)
     }
 
+    /// Find the file imported as `path` from the file identified by `importer`
+    /// in directory `dir`: in that directory first and otherwise in the
+    /// directories of the library path, in order.
+    ///
+    /// The result is relative to the working directory where that is enough to
+    /// identify the file.
+    fn find_import(&self, importer: &Locator, dir: Option<&Path>, path: &Path) -> Option<Locator> {
+        let cwd = std::env::current_dir().ok();
+        let relative = |found: PathBuf| {
+            let found = match &cwd {
+                Some(cwd) => cwd.join(found),
+                None => found,
+            };
+            let shorter = match (importer, &cwd) {
+                (Locator::Fs(p), Some(cwd)) if p.is_relative() => found.strip_prefix(cwd).ok(),
+                _ => None,
+            };
+            match (shorter, self.lib_path.first(), &cwd) {
+                (Some(shorter), None, _) => shorter.to_path_buf(),
+                // paths are looked for in the library path first
+                (Some(shorter), Some(first), Some(cwd)) if first == cwd => shorter.to_path_buf(),
+                _ => found,
+            }
+        };
+        dir.into_iter()
+            .chain(self.lib_path.iter().map(|p| p.as_path()))
+            .map(|dir| normalise_path(&dir.join(path)))
+            .find(|candidate| candidate.is_file())
+            .map(|candidate| Locator::Fs(relative(candidate)))
+    }
+
     /// Find the directory containing the source file identified by `locator`,
     /// searching the lib_path. Returns `None` for non-filesystem locators.
     fn find_source_dir(&self, locator: &Locator) -> Option<PathBuf> {
@@ -800,11 +828,11 @@ impl SourceLoader {
 
         for input in inputs {
             if let Some(file_id) = self.locators.get(input.locator()) {
-                if let Some(ast) = self.asts.get(file_id) {
-                    desugarables.insert(input.clone(), Content::new(*file_id, ast));
-                } else if let Some(core_expr) = self.cores.get(input) {
+                if let Some(core_expr) = self.cores.get(input) {
                     // Include core expressions (from non-eucalypt file formats) in desugarables
                     desugarables.insert(input.clone(), Content::new(*file_id, core_expr));
+                } else if let Some(ast) = self.asts.get(file_id) {
+                    desugarables.insert(input.clone(), Content::new(*file_id, ast));
                 }
             }
         }
@@ -812,7 +840,8 @@ impl SourceLoader {
         // Desugar all the content starting from the input specified.
         // Seed the desugarer with the persisted monad namespace registry
         // so that `-e` expressions see `monad: true` from the prelude.
-        let mut desugarer = Desugarer::new(&desugarables, &mut self.source_map);
+        let mut desugarer = Desugarer::new(&desugarables, &mut self.source_map)
+            .with_resolved_imports(&self.import_resolutions);
         self.unit_interface
             .seed_desugarer_monad_registries(&mut desugarer);
         let unit = desugarer.translate_unit(input)?;
diff --git a/src/syntax/import.rs b/src/syntax/import.rs
index 33ad3dc..57cec47 100644
--- a/src/syntax/import.rs
+++ b/src/syntax/import.rs
@@ -105,11 +105,11 @@ impl ImportGraph {
     ///
     /// Two inputs with the same locator (file path / URL) but different names
     /// are treated as the same graph node — the locator is the stable identity
-    /// after resolution.
+    /// after resolution, together with the format it is read as.
     fn find_index(&self, input: &Input) -> Option<NodeIndex> {
-        self.graph
-            .node_indices()
-            .find(|&i| self.graph[i].locator() == input.locator())
+        self.graph.node_indices().find(|&i| {
+            self.graph[i].locator() == input.locator() && self.graph[i].format() == input.format()
+        })
     }
 
     /// Add an input to the graph if it isn't already there and return
-- 
2.43.0


From 4f7d5791dbb46bfb5a262cc3f66f6572bf43f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 38/58] fix: keep internal names and import names from
 capturing other bindings

A binding marked internal hid any binding of the same name, even a prelude
function, from importers; its marking was missed if its declaration also
imported something. A file imported under a name could not refer to anything
else of that name.
---
 src/common/sourcemap.rs  |  13 ++++
 src/core/expr.rs         | 142 ++++++++++++++++++++-------------------
 src/driver/source.rs     |   6 +-
 src/eval/stg/compiler.rs |  11 ++-
 4 files changed, 95 insertions(+), 77 deletions(-)

diff --git a/src/common/sourcemap.rs b/src/common/sourcemap.rs
index b7a714f..c1e28f6 100644
--- a/src/common/sourcemap.rs
+++ b/src/common/sourcemap.rs
@@ -243,6 +243,9 @@ pub struct SourceMap {
     /// through `source` like any other) and until the first diagnostic on
     /// the blob path, where the prelude source is not otherwise loaded.
     prelude_file: Option<usize>,
+    /// Names declared `export: :internal` by some imported unit, so that an
+    /// unresolved reference to one can be explained.
+    internal_names: std::collections::HashSet<String>,
 }
 
 impl SourceMap {
@@ -552,6 +555,16 @@ impl SourceMap {
         self.blame_by_name.extend(table);
     }
 
+    /// Record names which imported units declare `export: :internal`.
+    pub fn record_internal_names(&mut self, names: impl IntoIterator<Item = String>) {
+        self.internal_names.extend(names);
+    }
+
+    /// Whether some imported unit declares `name` as `export: :internal`.
+    pub fn is_internal_name(&self, name: &str) -> bool {
+        self.internal_names.contains(name)
+    }
+
     /// Record the blob's slot → name table so a blob-mode global-slot Smid
     /// (see [`Smid::as_global_slot`]) can be resolved to a binding name
     /// without `classify_frame` needing a `PreludeBlob` reference of its own
diff --git a/src/core/expr.rs b/src/core/expr.rs
index 77f5016..bacf5fb 100644
--- a/src/core/expr.rs
+++ b/src/core/expr.rs
@@ -559,26 +559,29 @@ impl RcExpr {
     }
 
     /// Apply a name to an expression using a top level let.
+    ///
+    /// The name is not in scope in the expression itself: an expression
+    /// which already refers to something else by the same name keeps its
+    /// meaning.
     pub fn apply_name<S: AsRef<str>>(&self, smid: Smid, name: S) -> RcExpr {
-        core::default_let(smid, vec![(name.as_ref().to_string(), self.clone())])
+        let name = name.as_ref();
+        if !free_vars(self).contains(name) {
+            return core::default_let(smid, vec![(name.to_string(), self.clone())]);
+        }
+        // Bind the expression outside the scope of the name, to a name which
+        // cannot appear in user source.
+        let private = format!("{NAMED_UNIT_PREFIX}{name}");
+        let alias = RcExpr::from(Expr::Var(smid, Var::Free(private.clone())));
+        core::let_(
+            smid,
+            vec![(private, self.clone())],
+            core::default_let(smid, vec![(name.to_string(), alias)]),
+        )
     }
 
     /// Replace the body of a let (or nested lets) with the specified body
     pub fn rebody(&self, new_body: RcExpr) -> RcExpr {
-        let result = self.rebody_int(&mut SimpleEnvironment::new(), new_body);
-        // Collect internal binding names from the lib's let scope.  After
-        // rebody_int the importer's body is nested inside the lib's let scope,
-        // so any Var::Free("internal-name") that slipped through prepare_capture_vars
-        // would be re-bound by the cook phase's open/close-let-scope cycle.
-        // We rename them to "__eu_internal:<name>" — a name that cannot appear in
-        // user source — so that close_let_scope cannot match them, keeping them
-        // permanently free and causing a CompileError::FreeVar at STG compile time.
-        let internal_names = collect_internal_binding_names(self);
-        if internal_names.is_empty() {
-            result
-        } else {
-            mask_internal_free_vars(&internal_names, &result)
-        }
+        self.rebody_int(&mut SimpleEnvironment::new(), new_body)
     }
 
     /// Retrieve the bound names in a let binding so we can prepare to capture using them.
@@ -609,26 +612,37 @@ impl RcExpr {
                 // Use bind_free_vars (not close_expr_vars) to avoid shifting
                 // existing de Bruijn indices that are already correct from a
                 // previous merge step.
-                // Position-preserving capture mask: internal bindings keep their
-                // slot (preserving de Bruijn indices for all public bindings) but
-                // are replaced with a non-matchable placeholder so that no free
-                // variable can be captured into an internal slot.
-                let names: Vec<&str> = scope
+                //
+                // Internal bindings keep their slot (preserving de Bruijn
+                // indices for all public bindings) but take a name that
+                // cannot appear in user source.  Free variables of the new
+                // body can then never be captured by them — neither here nor
+                // when a later pass opens and closes this scope by name —
+                // and remain available to an enclosing scope which exports
+                // the same name.
+                let pattern: Vec<_> = scope
                     .pattern
                     .iter()
                     .map(|b| {
-                        if has_internal_export(&b.expr) {
-                            "\x00"
+                        if has_internal_export(&b.expr)
+                            && !b.name.starts_with(INTERNAL_BINDING_PREFIX)
+                        {
+                            CoreBinding::with_demand(
+                                format!("{INTERNAL_BINDING_PREFIX}{}", b.name),
+                                b.expr.clone(),
+                                b.demand,
+                            )
                         } else {
-                            b.name.as_str()
+                            b.clone()
                         }
                     })
                     .collect();
+                let names: Vec<&str> = pattern.iter().map(|b| b.name.as_str()).collect();
                 let closed_body = bind_free_vars(&names, 0, &rebodied);
                 let ret = RcExpr::from(Expr::Let(
                     *s,
                     Scope {
-                        pattern: scope.pattern.clone(),
+                        pattern,
                         body: closed_body,
                     },
                     *let_type,
@@ -1696,16 +1710,18 @@ pub fn open_expr_vars(names: &[Option<&str>], depth: u32, expr: &RcExpr) -> RcEx
     }
 }
 
-/// Return `true` if `expr` has `export: :internal` in its outermost `Meta` wrapper.
+/// Return `true` if `expr` has `export: :internal` in its outermost `Meta` wrapper,
+/// which may be embedded in the lets of the declaration's own imports.
 ///
 /// Used by:
-/// - `rebody_int`: to build a position-preserving capture mask (M3 of the
-///   `export: :internal` spec).
+/// - `rebody_int`: to take the binding out of the importer's reach (M3 of
+///   the `export: :internal` spec).
 /// - Block / Unit desugaring: to exclude `:internal` bindings from the
 ///   block-value field list (M2).
 pub fn has_internal_export(expr: &RcExpr) -> bool {
     let meta_block = match &*expr.inner {
         Expr::Meta(_, _, m) => m,
+        Expr::Let(_, scope, _) => return has_internal_export(&scope.body),
         _ => return false,
     };
     let entries = match &*meta_block.inner {
@@ -1717,50 +1733,38 @@ pub fn has_internal_export(expr: &RcExpr) -> bool {
     )
 }
 
-/// The prefix used to mangle internal binding names when they appear as free
-/// variables in an importer's body.  This ensures the cook phase cannot
-/// re-bind them via `close_let_scope` and they reach the STG compiler as
-/// genuine free variables, triggering `CompileError::FreeVar`.
-pub const INTERNAL_FREE_VAR_PREFIX: &str = "__eu_internal:";
-
-/// Collect all binding names that are marked `export: :internal` from a let
-/// expression (and its nested let bodies).  Used by `rebody` to find which
-/// names need to be masked in the imported body.
-pub fn collect_internal_binding_names(expr: &RcExpr) -> Vec<String> {
-    let mut out = Vec::new();
-    collect_internal_binding_names_inner(expr, &mut out);
-    out
-}
-
-fn collect_internal_binding_names_inner(expr: &RcExpr, out: &mut Vec<String>) {
-    match &*expr.inner {
-        Expr::Let(_, scope, _) => {
-            for b in &scope.pattern {
-                if has_internal_export(&b.expr) {
-                    out.push(b.name.clone());
-                }
-            }
-            collect_internal_binding_names_inner(&scope.body, out);
+/// The prefix given to the names of `export: :internal` bindings once their
+/// unit has been rebodied.  No user-written name can match it, so the
+/// importer's free variables are never bound to them.
+pub const INTERNAL_BINDING_PREFIX: &str = "__eu_internal:";
+
+/// The prefix given to the binding of a named unit which itself refers to
+/// something else by the same name.
+const NAMED_UNIT_PREFIX: &str = "__eu_named:";
+
+/// Collect the names (as written) of all `export: :internal` bindings which
+/// have been hidden from an importer by `rebody`.
+pub fn hidden_internal_names(expr: &RcExpr) -> std::collections::HashSet<String> {
+    fn visit(expr: &RcExpr, out: &mut std::collections::HashSet<String>) -> RcExpr {
+        if let Expr::Let(_, scope, _) = &*expr.inner {
+            out.extend(
+                scope
+                    .pattern
+                    .iter()
+                    .filter_map(|b| b.name.strip_prefix(INTERNAL_BINDING_PREFIX))
+                    .map(str::to_string),
+            );
         }
-        Expr::Meta(_, e, _) => collect_internal_binding_names_inner(e, out),
-        _ => {}
-    }
-}
-
-/// Walk `expr` and rename every `Var::Free(name)` where `name` is in
-/// `internal_names` to `Var::Free("__eu_internal:<name>")`.  Only free
-/// variables are affected — bound variables (de Bruijn) are untouched.
-pub fn mask_internal_free_vars(internal_names: &[String], expr: &RcExpr) -> RcExpr {
-    expr.substs_free(&|n: &str| {
-        if internal_names.iter().any(|s| s == n) {
-            Some(RcExpr::from(Expr::Var(
-                Smid::default(),
-                Var::Free(format!("{}{}", INTERNAL_FREE_VAR_PREFIX, n)),
-            )))
-        } else {
-            None
+        let walked: Result<RcExpr, std::convert::Infallible> =
+            expr.try_walk_safe(&mut |e| Ok(visit(e, out)));
+        match walked {
+            Ok(_) => expr.clone(),
+            Err(never) => match never {},
         }
-    })
+    }
+    let mut out = std::collections::HashSet::new();
+    visit(expr, &mut out);
+    out
 }
 
 /// Collect all free variable names in an expression.
diff --git a/src/driver/source.rs b/src/driver/source.rs
index 181a179..02078bc 100644
--- a/src/driver/source.rs
+++ b/src/driver/source.rs
@@ -6,7 +6,7 @@ use crate::core::desugar::desugarable::Desugarable;
 use crate::core::desugar::desugarer::ImportResolutions;
 use crate::core::desugar::{Content, Desugarer};
 use crate::core::error::CoreError;
-use crate::core::expr::{Expr, LetType, RcExpr};
+use crate::core::expr::{hidden_internal_names, Expr, LetType, RcExpr};
 use crate::core::inline::reduce;
 use crate::core::inline::tag;
 use crate::core::simplify::compress;
@@ -1107,6 +1107,8 @@ impl SourceLoader {
             .iter()
             .map(|i| self.translation_units.get(i).expect("merging unknown unit"));
         self.core = TranslationUnit::merge(units.cloned())?;
+        self.source_map
+            .record_internal_names(hidden_internal_names(&self.core.expr));
         Ok(())
     }
 
@@ -1149,6 +1151,8 @@ impl SourceLoader {
                 .chain(epilogue_units)
                 .cloned(),
         )?;
+        self.source_map
+            .record_internal_names(hidden_internal_names(&self.core.expr));
 
         Ok(())
     }
diff --git a/src/eval/stg/compiler.rs b/src/eval/stg/compiler.rs
index c3a6e9a..4c3ade5 100644
--- a/src/eval/stg/compiler.rs
+++ b/src/eval/stg/compiler.rs
@@ -6,7 +6,7 @@ use crate::core::binding::{BoundVar, Var};
 use crate::core::demand::Demand;
 use crate::{
     common::sourcemap::{HasSmid, Smid, SourceMap},
-    core::expr::{BlockMap, Expr, LamScope, LetScope, Primitive, RcExpr, INTERNAL_FREE_VAR_PREFIX},
+    core::expr::{BlockMap, Expr, LamScope, LetScope, Primitive, RcExpr},
     eval::{
         intrinsics,
         machine::intrinsic::{CallGlobal1, Const, StgIntrinsic},
@@ -76,14 +76,11 @@ impl CompileError {
             CompileError::FreeVar(_, name) => {
                 // Detect bindings that are internal to their unit (marked
                 // `export: :internal`) and give a specific error message.
-                if let Some(real_name) = name.strip_prefix(INTERNAL_FREE_VAR_PREFIX) {
-                    let friendly_diag = source_map
-                        .diagnostic(self)
-                        .with_message(format!("unresolved variable '{}'", real_name));
-                    return friendly_diag.with_notes(vec![format!(
+                if source_map.is_internal_name(name) {
+                    return diag.with_notes(vec![format!(
                         "note: '{}' is marked `export: :internal` in its unit and \
                          cannot be accessed by importers",
-                        real_name
+                        name
                     )]);
                 }
                 let mut notes = vec!["check that the variable is defined and in scope".to_string()];
-- 
2.43.0


From 5ea066f12066629c4d0ce0128b9fc375df1c0189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 39/58] fix: keep the fixity of an operator whose declaration
 has imports

---
 src/core/desugar/rowan_ast.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/desugar/rowan_ast.rs b/src/core/desugar/rowan_ast.rs
index 7fca6c1..41724c4 100644
--- a/src/core/desugar/rowan_ast.rs
+++ b/src/core/desugar/rowan_ast.rs
@@ -2755,8 +2755,12 @@ fn rowan_declaration_to_binding(
         );
     }
 
-    // Wrap in operator if this is an operator declaration
+    // Wrap in operator if this is an operator declaration. The operator must
+    // stay outermost to take part in fixity resolution, so imports go inside.
     if components.is_operator {
+        expr = imports
+            .drain(..)
+            .rfold(expr, |acc, import| import.rebody(acc));
         expr = RcExpr::from(Expr::Operator(
             desugarer.new_smid(components.span),
             components
-- 
2.43.0


From a03216e694f5b9259876bdbeea71a12917fe4998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 40/58] fix: targets are found where they are, and always the
 same one

A target in an input or import with a name was looked for outside that name,
and one in a file imported by a declaration or block as if it were a member, so
that importing a file with a main target could make any program fail. Which of
several targets of the same name was run varied from run to run.
---
 src/core/desugar/desugarer.rs | 74 ++++++++++++++++++++++-------------
 src/core/unit.rs              | 27 ++++++++-----
 src/driver/source.rs          |  8 +++-
 src/wasm_pipeline.rs          | 14 +++----
 4 files changed, 77 insertions(+), 46 deletions(-)

diff --git a/src/core/desugar/desugarer.rs b/src/core/desugar/desugarer.rs
index 1d1e4c8..36255de 100644
--- a/src/core/desugar/desugarer.rs
+++ b/src/core/desugar/desugarer.rs
@@ -17,6 +17,7 @@ use crate::{
     syntax::input::*,
 };
 use codespan::Span;
+use indexmap::IndexSet;
 use std::collections::{HashMap, HashSet};
 
 /// A monad specification registered for a bracket pair or used inline in block metadata.
@@ -43,12 +44,11 @@ pub struct Desugarer<'smap> {
     /// While in the scope of anaphoric string pattern, collect all the
     /// anaphora for processing at the boundary the pattern
     pending_string_anaphora: HashMap<Anaphor<Smid, i32>, String>,
-    /// Targets discovered (including those from imported files)
-    targets: HashSet<Target>,
-    /// Targets that originated from imported files rather than the
-    /// top-level unit being desugared.  Used to compute `own_targets`
-    /// in [`Self::translate_unit`].
-    imported_targets: HashSet<Target>,
+    /// Targets discovered in the file being desugared
+    targets: IndexSet<Target>,
+    /// Targets that originated from files imported by the file being
+    /// desugared
+    imported_targets: IndexSet<Target>,
     /// Doc strings discovered (path, doc)
     docs: Vec<DeclarationDocumentation>,
     /// Deprecated declarations discovered during desugaring.
@@ -150,8 +150,8 @@ impl<'smap> Desugarer<'smap> {
     ) -> Self {
         Desugarer {
             pending_string_anaphora: HashMap::new(),
-            targets: HashSet::new(),
-            imported_targets: HashSet::new(),
+            targets: IndexSet::new(),
+            imported_targets: IndexSet::new(),
             docs: Vec::new(),
             deprecations: HashMap::new(),
             blame: HashMap::new(),
@@ -259,15 +259,25 @@ impl<'smap> Desugarer<'smap> {
             // `own_targets` contains only the targets declared in this
             // file itself — targets from imported files are collected
             // separately in `self.imported_targets` by `translate_import`.
-            let own_targets = self
-                .targets
-                .difference(&self.imported_targets)
-                .cloned()
-                .collect();
+            // A name for the unit gives access to its own declarations only.
+            let (targets, own_targets) = match input.name() {
+                Some(name) => {
+                    let own: IndexSet<Target> =
+                        self.targets.iter().map(|t| t.under(name)).collect();
+                    (own.clone(), own)
+                }
+                None => (
+                    self.imported_targets
+                        .union(&self.targets)
+                        .cloned()
+                        .collect(),
+                    self.targets.clone(),
+                ),
+            };
 
             let unit = TranslationUnit {
                 expr,
-                targets: self.targets.clone(),
+                targets,
                 own_targets,
                 docs: self.docs.clone(),
                 deprecations: self.deprecations.clone(),
@@ -284,10 +294,13 @@ impl<'smap> Desugarer<'smap> {
     /// import.
     ///
     /// Any targets registered whilst desugaring the import are added to
-    /// both `self.targets` (so that `-t target-name` can still invoke
-    /// them) and `self.imported_targets` (so that [`Self::translate_unit`]
-    /// can exclude them from `own_targets`, preventing the test runner
-    /// from auto-discovering targets that belong to imported files).
+    /// `self.imported_targets`, so that `-t target-name` can still invoke
+    /// them but they are not among the `own_targets` of the unit
+    /// (preventing the test runner from auto-discovering targets that
+    /// belong to imported files). Only what is reachable by a path from
+    /// the top level counts: an import made by a declaration or block
+    /// contributes no targets, and an import with a name contributes only
+    /// the file's own.
     ///
     /// Returns `Ok(None)` when the import is suppressed by the import
     /// guard (diamond-deduplication semantics): the same file, imported
@@ -334,16 +347,23 @@ impl<'smap> Desugarer<'smap> {
             self.file.push(file_id);
             let mark = self.import_mark();
 
-            // Snapshot targets before desugaring the import so we can
-            // identify which targets were added by the imported file.
-            let targets_before = self.targets.clone();
+            // Set the importing file's targets aside, to identify those
+            // found in the imported file.
+            let own_targets = std::mem::take(&mut self.targets);
+            let other_targets = std::mem::take(&mut self.imported_targets);
             let mut expr = source.content().desugar(self)?;
-
-            // Any targets not present before this import are "imported" —
-            // record them so `translate_unit` can exclude them from
-            // `own_targets`.
-            let newly_added = self.targets.difference(&targets_before).cloned();
-            self.imported_targets.extend(newly_added);
+            let found = std::mem::replace(&mut self.targets, own_targets);
+            let found_imported = std::mem::replace(&mut self.imported_targets, other_targets);
+            if self.stack.is_empty() {
+                match &import_name {
+                    Some(name) => self
+                        .imported_targets
+                        .extend(found.iter().map(|t| t.under(name))),
+                    None => self
+                        .imported_targets
+                        .extend(found_imported.into_iter().chain(found)),
+                }
+            }
 
             if let Some(name) = import.name() {
                 // whatever the file itself imports is hidden behind the name
diff --git a/src/core/unit.rs b/src/core/unit.rs
index fea7373..2074335 100644
--- a/src/core/unit.rs
+++ b/src/core/unit.rs
@@ -6,7 +6,8 @@ use crate::core::metadata::{BlameSpec, DeprecationSpec};
 use crate::core::target::Target;
 use crate::syntax::export::embed::Embed;
 use crate::syntax::export::pretty;
-use std::collections::{HashMap, HashSet};
+use indexmap::IndexSet;
+use std::collections::HashMap;
 
 use super::expr::acore;
 
@@ -20,12 +21,12 @@ pub struct TranslationUnit {
     /// transitively imported files.  The full set is needed so that
     /// `eu -t target-name file.eu` can invoke targets defined in
     /// imported files.
-    pub targets: HashSet<Target>,
+    pub targets: IndexSet<Target>,
     /// Targets declared in the top-level file itself, excluding any
     /// targets that originated in imported files.  The test runner uses
     /// this set for auto-discovery so that imported `test-*` / `bench-*`
     /// targets are not run as part of the importing file's test suite.
-    pub own_targets: HashSet<Target>,
+    pub own_targets: IndexSet<Target>,
     /// Doc strings read from the unit
     pub docs: Vec<DeclarationDocumentation>,
     /// Deprecated declarations discovered during desugaring.
@@ -48,8 +49,15 @@ pub struct TranslationUnit {
 
 impl TranslationUnit {
     /// Return the specified target if it exists
+    ///
+    /// A target of the inputs themselves takes precedence over an imported
+    /// one and otherwise the latest takes precedence.
     pub fn target<T: AsRef<str>>(&self, target: T) -> Option<&Target> {
-        self.targets.iter().find(|n| n.name() == target.as_ref())
+        self.own_targets
+            .iter()
+            .rev()
+            .chain(self.targets.iter().rev())
+            .find(|n| n.name() == target.as_ref())
     }
 
     /// True if this unit has the target specified
@@ -99,8 +107,8 @@ impl TranslationUnit {
         I: Iterator<Item = &'a Self>,
         S: AsRef<str>,
     {
-        let mut targets = HashSet::new();
-        let mut own_targets = HashSet::new();
+        let mut targets = IndexSet::new();
+        let mut own_targets = IndexSet::new();
         let mut docs = vec![];
         let mut deprecations = HashMap::new();
         let mut blame = HashMap::new();
@@ -108,7 +116,8 @@ impl TranslationUnit {
 
         for (k, u) in keys.iter().zip(units) {
             let key = k.as_ref();
-            targets.extend(u.targets.iter().map(|t| t.under(key)));
+            // what a unit imports is not reachable through the block
+            targets.extend(u.own_targets.iter().map(|t| t.under(key)));
             own_targets.extend(u.own_targets.iter().map(|t| t.under(key)));
             docs.extend(u.docs.iter().map(|d| d.under(key)));
             deprecations.extend(u.deprecations.clone());
@@ -150,9 +159,7 @@ impl TranslationUnit {
     /// return the target's format if specified
     pub fn retarget(&self, target: &str) -> Result<Self, CoreError> {
         let path = self
-            .targets
-            .iter()
-            .find(|t| t.name() == target)
+            .target(target)
             .ok_or_else(|| CoreError::TargetNotFound(target.to_string()))?
             .path();
 
diff --git a/src/driver/source.rs b/src/driver/source.rs
index 02078bc..381bb46 100644
--- a/src/driver/source.rs
+++ b/src/driver/source.rs
@@ -11,6 +11,7 @@ use crate::core::inline::reduce;
 use crate::core::inline::tag;
 use crate::core::simplify::compress;
 use crate::core::simplify::prune;
+use crate::core::target::Target;
 use crate::core::transform::fuse;
 use crate::core::transform::hoist;
 use crate::core::unit::TranslationUnit;
@@ -812,8 +813,8 @@ impl SourceLoader {
             // Create a translation unit directly from the core expression
             let unit = TranslationUnit {
                 expr,
-                targets: std::collections::HashSet::new(),
-                own_targets: std::collections::HashSet::new(),
+                targets: Default::default(),
+                own_targets: Default::default(),
                 docs: Vec::new(),
                 deprecations: std::collections::HashMap::new(),
                 blame: std::collections::HashMap::new(),
@@ -1144,6 +1145,9 @@ impl SourceLoader {
         collection_unit.expr = collection_unit
             .expr
             .apply_name(Smid::default(), collection_name);
+        let placed = |t: &Target| t.under(collection_name);
+        collection_unit.targets = collection_unit.targets.iter().map(placed).collect();
+        collection_unit.own_targets = collection_unit.own_targets.iter().map(placed).collect();
 
         self.core = TranslationUnit::merge(
             prologue_units
diff --git a/src/wasm_pipeline.rs b/src/wasm_pipeline.rs
index 1e4334c..3aa7e02 100644
--- a/src/wasm_pipeline.rs
+++ b/src/wasm_pipeline.rs
@@ -11,7 +11,7 @@
 //! The WASM module (`wasm.rs`) exposes both as `evaluate` and `evaluate_expr`.
 
 use std::cell::RefCell;
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::fmt;
 use std::io;
 use std::rc::Rc;
@@ -205,24 +205,24 @@ fn run_pipeline(source: &str, format: &str, mode: ParseMode) -> Result<String, P
     //   __args, __io, __build, prelude, user_source
     let args_unit = TranslationUnit {
         expr: create_args_pseudoblock(&[]).apply_name(Smid::default(), "__args"),
-        targets: HashSet::new(),
-        own_targets: HashSet::new(),
+        targets: Default::default(),
+        own_targets: Default::default(),
         docs: Vec::new(),
         deprecations: HashMap::new(),
         blame: HashMap::new(),
     };
     let io_unit = TranslationUnit {
         expr: create_io_pseudoblock(None).apply_name(Smid::default(), "__io"),
-        targets: HashSet::new(),
-        own_targets: HashSet::new(),
+        targets: Default::default(),
+        own_targets: Default::default(),
         docs: Vec::new(),
         deprecations: HashMap::new(),
         blame: HashMap::new(),
     };
     let build_unit = TranslationUnit {
         expr: build_meta_core.apply_name(Smid::default(), "__build"),
-        targets: HashSet::new(),
-        own_targets: HashSet::new(),
+        targets: Default::default(),
+        own_targets: Default::default(),
         docs: Vec::new(),
         deprecations: HashMap::new(),
         blame: HashMap::new(),
-- 
2.43.0


From b4f35a8f706165f578b8afcc9e6e41f981f8543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 41/58] fix: IO commands get all of their arguments and input,
 and end when their time is up

Arguments whose list was not evaluated yet were dropped, as were a lone
empty argument and the input "null". A command which did not read all of
its input made the run fail, and one which answered before it had read it
made it hang. A command which timed out was left running.
---
 src/driver/bytecode_io_run.rs |  67 +++++++------
 src/driver/io_common.rs       | 175 ++++++++++++++++++++++++----------
 src/eval/bytecode/machine.rs  |  59 ++++--------
 3 files changed, 180 insertions(+), 121 deletions(-)

diff --git a/src/driver/bytecode_io_run.rs b/src/driver/bytecode_io_run.rs
index 4a7999a..5d45d09 100644
--- a/src/driver/bytecode_io_run.rs
+++ b/src/driver/bytecode_io_run.rs
@@ -28,7 +28,8 @@
 
 use std::collections::HashMap;
 
-use crate::driver::io_common::{run_spec, ActionSpec, IoRunError};
+use crate::common::sourcemap::Smid;
+use crate::driver::io_common::{run_spec, ActionSpec, IoRunError, SpecField};
 use crate::eval::bytecode::{BcValue, BytecodeMachine};
 use crate::eval::error::ExecutionError;
 use crate::eval::intrinsics;
@@ -78,48 +79,54 @@ fn evaluate_spec_block(
         machine.stash_push(v.clone());
     }
 
-    let mut eval_fields: HashMap<String, Option<String>> = HashMap::new();
+    let call_smid = machine.annotation();
+    let mut eval_fields: HashMap<String, SpecField> = HashMap::new();
     for (key, _) in &raw_fields {
         let raw = machine.stash_pop();
         let whnf = force_field(machine, raw)?;
 
-        // List-valued fields (e.g. `args`) need each element forced and
-        // rendered, then joined with NUL as a separator.
-        let value_str = if machine.value_is_list(&whnf) {
-            let elements = machine
-                .list_element_values(&whnf)
-                .map_err(IoRunError::from)?;
-            // Stash all element closures before the loop (same GC reason as the
-            // fields above); push in reverse for forward pop order.
-            for e in elements.iter().rev() {
-                machine.stash_push(e.clone());
-            }
-            let mut parts: Vec<String> = Vec::new();
-            for _ in 0..elements.len() {
-                let elem = machine.stash_pop();
-                let elem_whnf = force_field(machine, elem)?;
-                if let Some(s) = machine.whnf_scalar_string(&elem_whnf) {
-                    parts.push(s);
-                }
-            }
-            if parts.is_empty() {
-                None
-            } else {
-                Some(parts.join("\x00"))
-            }
+        let field = if machine.value_is_list(&whnf) {
+            SpecField::List(force_list_field(machine, key, whnf, call_smid)?)
         } else {
-            machine.whnf_scalar_string(&whnf)
+            machine
+                .whnf_scalar_string(&whnf)
+                .map_or(SpecField::Other, SpecField::Scalar)
         };
-        eval_fields.insert(key.clone(), value_str);
+        eval_fields.insert(key.clone(), field);
     }
 
     // Hand the recovered tag and evaluated fields to the shared, representation-
     // agnostic policy so both engines apply identical tag dispatch, timeout /
-    // stdin handling, NUL-split args, required-cmd errors, and io-fail wording.
-    let call_smid = machine.annotation();
+    // stdin handling, args, required-cmd errors, and io-fail wording.
     crate::driver::io_common::action_spec_from_fields(tag.as_deref(), &eval_fields, call_smid)
 }
 
+/// Force a list-valued field (e.g. `args`) cell by cell, rendering each element.
+/// Neither the elements nor the tails of the list need be evaluated yet.
+fn force_list_field(
+    machine: &mut BytecodeMachine<'_>,
+    key: &str,
+    mut list: BcValue,
+    call_smid: Smid,
+) -> Result<Vec<String>, IoRunError> {
+    let mut parts = Vec::new();
+    while let Some((head, tail)) = machine.list_cell(&list).map_err(IoRunError::from)? {
+        // The tail is stashed while the head is forced (GC may move it).
+        machine.stash_push(tail);
+        let elem = force_field(machine, head)?;
+        let part = machine.whnf_scalar_string(&elem).ok_or_else(|| {
+            IoRunError::MachineError(Box::new(ExecutionError::IoFail(
+                call_smid,
+                format!("each element of '{key}' in an IO action spec must be a scalar"),
+            )))
+        })?;
+        parts.push(part);
+        let tail = machine.stash_pop();
+        list = force_field(machine, tail)?;
+    }
+    Ok(parts)
+}
+
 /// Force a spec-block field to WHNF, peeling a boxed scalar whose inner field
 /// is still an unevaluated thunk (e.g. a `BoxedString` wrapping a format-expr).
 /// Mirrors the `peel_box_inner` re-evaluation in `io_run::evaluate_spec_block`.
diff --git a/src/driver/io_common.rs b/src/driver/io_common.rs
index f3c9639..e3ac7cd 100644
--- a/src/driver/io_common.rs
+++ b/src/driver/io_common.rs
@@ -11,10 +11,11 @@
 use std::{
     collections::HashMap,
     io::Write as IoWrite,
-    process::{Command, Stdio},
+    io::{self, Read},
+    process::{Child, Command, Output, Stdio},
     sync::mpsc,
     thread,
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 use crate::common::sourcemap::Smid;
@@ -73,6 +74,26 @@ pub enum ActionSpec {
     },
 }
 
+/// An evaluated field of a spec block, as handed over by the engine's driver.
+#[derive(Debug, Clone)]
+pub enum SpecField {
+    /// A scalar, rendered as text (`null` is the empty text)
+    Scalar(String),
+    /// A list of scalars, each rendered as text
+    List(Vec<String>),
+    /// Anything else
+    Other,
+}
+
+impl SpecField {
+    fn scalar(&self) -> Option<&str> {
+        match self {
+            SpecField::Scalar(s) => Some(s),
+            _ => None,
+        }
+    }
+}
+
 // ─── Action-spec policy (shared by both engine drivers) ──────────────────────
 
 /// Resolve an [`ActionSpec`] (or an io-fail) from the statically-recovered meta
@@ -83,35 +104,36 @@ pub enum ActionSpec {
 /// ([`crate::driver::bytecode_io_run`]) drivers. Each driver navigates its own
 /// heap representation to (a) recover the spec block's meta tag — `io-shell` /
 /// `io-exec` / `io-fail` — when it is statically visible, and (b) evaluate each
-/// field to a rendered string; it then hands both to this function, which owns
+/// field to a [`SpecField`]; it then hands both to this function, which owns
 /// all the actual *policy*:
 ///
 /// - `timeout` defaults to 30 seconds when absent or unparseable;
-/// - `stdin` is dropped when empty or the literal `"null"`;
+/// - `stdin` is dropped when empty or `null`;
 /// - the action is chosen by the meta **tag** when present, falling back to
 ///   field inference only when the tag is genuinely unavailable (App-thunk spec
 ///   blocks — `io.shell-with` / `io.exec-with` — whose `Meta` wrapper is
 ///   stripped during forcing). Both engines therefore dispatch identically;
-/// - `args` is split on NUL (the element separator used by both drivers);
+/// - `args` is a list of scalars, and a single scalar is a single argument;
 /// - a missing `cmd` is a hard error; an `io-fail` becomes `IoRunError::Fail`.
 ///
 /// Keeping this here guarantees the two engines cannot drift (they previously
 /// hand-rolled subtly different copies of this logic).
 pub fn action_spec_from_fields(
     tag: Option<&str>,
-    fields: &HashMap<String, Option<String>>,
+    fields: &HashMap<String, SpecField>,
     call_smid: Smid,
 ) -> Result<ActionSpec, IoRunError> {
     let timeout_secs = fields
         .get("timeout")
-        .and_then(|opt| opt.as_deref())
+        .and_then(SpecField::scalar)
         .and_then(|s| s.parse::<u64>().ok())
         .unwrap_or(30);
 
     let stdin = fields
         .get("stdin")
-        .and_then(|opt| opt.clone())
-        .filter(|s| !s.is_empty() && s != "null");
+        .and_then(SpecField::scalar)
+        .filter(|s| !s.is_empty())
+        .map(str::to_string);
 
     // Prefer the meta tag; fall back to field inference only when unavailable.
     let resolved = tag.map(str::to_string).or_else(|| infer_action_tag(fields));
@@ -119,11 +141,11 @@ pub fn action_spec_from_fields(
     match resolved.as_deref() {
         Some("io-exec") => {
             let cmd = require_cmd(fields, "io.exec", call_smid)?;
-            let args = fields
-                .get("args")
-                .and_then(|opt| opt.clone())
-                .map(split_nul_args)
-                .unwrap_or_default();
+            let args = match fields.get("args") {
+                Some(SpecField::List(args)) => args.clone(),
+                Some(SpecField::Scalar(arg)) if !arg.is_empty() => vec![arg.clone()],
+                _ => vec![],
+            };
             Ok(ActionSpec::Exec {
                 cmd,
                 args,
@@ -142,8 +164,9 @@ pub fn action_spec_from_fields(
         Some("io-fail") => {
             let message = fields
                 .get("message")
-                .and_then(|opt| opt.clone())
-                .unwrap_or_else(|| "io.fail".to_string());
+                .and_then(SpecField::scalar)
+                .unwrap_or("io.fail")
+                .to_string();
             Err(IoRunError::Fail(message))
         }
         _ => Err(IoRunError::MachineError(Box::new(ExecutionError::IoFail(
@@ -158,7 +181,7 @@ pub fn action_spec_from_fields(
 /// Field-based action inference — the shared fallback for App-thunk spec blocks
 /// whose meta tag was stripped during forcing: `args` ⇒ exec, `cmd` ⇒ shell,
 /// `message` ⇒ fail.
-fn infer_action_tag(fields: &HashMap<String, Option<String>>) -> Option<String> {
+fn infer_action_tag(fields: &HashMap<String, SpecField>) -> Option<String> {
     if fields.contains_key("args") {
         Some("io-exec".to_string())
     } else if fields.contains_key("cmd") {
@@ -172,13 +195,14 @@ fn infer_action_tag(fields: &HashMap<String, Option<String>>) -> Option<String>
 
 /// Read the required `cmd` field, erroring with an action-qualified message.
 fn require_cmd(
-    fields: &HashMap<String, Option<String>>,
+    fields: &HashMap<String, SpecField>,
     action: &str,
     call_smid: Smid,
 ) -> Result<String, IoRunError> {
     fields
         .get("cmd")
-        .and_then(|opt| opt.clone())
+        .and_then(SpecField::scalar)
+        .map(str::to_string)
         .ok_or_else(|| {
             IoRunError::MachineError(Box::new(ExecutionError::IoFail(
                 call_smid,
@@ -187,17 +211,6 @@ fn require_cmd(
         })
 }
 
-/// Split a rendered list field into its elements. Both drivers join list
-/// elements with NUL (`\x00`) before handing the field to this policy, so the
-/// inverse split lives here too.
-fn split_nul_args(s: String) -> Vec<String> {
-    if s.is_empty() {
-        vec![]
-    } else {
-        s.split('\x00').map(|x| x.to_string()).collect()
-    }
-}
-
 // ─── Shell execution ──────────────────────────────────────────────────────────
 
 /// Execute a shell command via the platform shell.
@@ -258,8 +271,8 @@ fn run_command(
             // Spawn failure (e.g. binary not found) returns a result block
             // rather than a hard error, matching shell conventions.
             let exit_code = match e.kind() {
-                std::io::ErrorKind::NotFound => 127,
-                std::io::ErrorKind::PermissionDenied => 126,
+                io::ErrorKind::NotFound => 127,
+                io::ErrorKind::PermissionDenied => 126,
                 _ => -1,
             };
             return Ok(CommandResult {
@@ -270,23 +283,10 @@ fn run_command(
         }
     };
 
-    if let Some(input) = stdin_data {
-        if let Some(mut pipe) = child.stdin.take() {
-            pipe.write_all(input.as_bytes())
-                .map_err(|e| IoRunError::CommandError(call_smid, e.to_string()))?;
-            // Drop `pipe` to close stdin and signal EOF to the child
-        }
-    }
-
-    // Use a worker thread to implement timeout, since `wait_timeout` is not a
-    // project dependency.
-    let (tx, rx) = mpsc::channel();
-    thread::spawn(move || {
-        let _ = tx.send(child.wait_with_output());
-    });
-
-    match rx.recv_timeout(Duration::from_secs(timeout_secs)) {
-        Ok(Ok(output)) => {
+    // (a timeout beyond a century is no timeout, but must not overflow)
+    let deadline = Instant::now() + Duration::from_secs(timeout_secs.min(u32::MAX.into()));
+    match communicate(&mut child, stdin_data, deadline) {
+        Ok(Some(output)) => {
             let exit_code = output.status.code().unwrap_or(-1) as i64;
             let stdout = String::from_utf8_lossy(&output.stdout).into_owned();
             let stderr = String::from_utf8_lossy(&output.stderr).into_owned();
@@ -296,8 +296,81 @@ fn run_command(
                 exit_code,
             })
         }
-        Ok(Err(e)) => Err(IoRunError::CommandError(call_smid, e.to_string())),
-        Err(_timeout) => Err(IoRunError::Timeout(call_smid, timeout_secs)),
+        Ok(None) => {
+            // Out of time: the command must not carry on behind our back.
+            let _ = child.kill();
+            let _ = child.wait();
+            Err(IoRunError::Timeout(call_smid, timeout_secs))
+        }
+        Err(e) => Err(IoRunError::CommandError(call_smid, e.to_string())),
+    }
+}
+
+/// Feed the child its stdin while collecting its output - all at once, since a
+/// child which is blocked on one of its pipes does not get on with the others -
+/// and await its exit. `None` when the deadline passes first.
+fn communicate(
+    child: &mut Child,
+    stdin_data: Option<&str>,
+    deadline: Instant,
+) -> io::Result<Option<Output>> {
+    if let (Some(mut pipe), Some(input)) = (child.stdin.take(), stdin_data) {
+        let input = input.as_bytes().to_vec();
+        // A command is free to ignore its stdin, so failure to deliver all of
+        // it is not an error. The pipe is closed, signalling EOF to the child,
+        // when it is dropped with the thread.
+        thread::spawn(move || {
+            let _ = pipe.write_all(&input);
+        });
+    }
+
+    let stdout = child.stdout.take().map(read_in_background);
+    let stderr = child.stderr.take().map(read_in_background);
+    let (Some(stdout), Some(stderr)) = (collect(stdout, deadline)?, collect(stderr, deadline)?)
+    else {
+        return Ok(None);
+    };
+
+    // The output is complete, so the child has generally exited by now.
+    loop {
+        if let Some(status) = child.try_wait()? {
+            return Ok(Some(Output {
+                status,
+                stdout,
+                stderr,
+            }));
+        }
+        if Instant::now() >= deadline {
+            return Ok(None);
+        }
+        thread::sleep(Duration::from_millis(1));
+    }
+}
+
+/// Read a pipe to its end in a thread of its own.
+fn read_in_background<R: Read + Send + 'static>(
+    mut pipe: R,
+) -> mpsc::Receiver<io::Result<Vec<u8>>> {
+    let (tx, rx) = mpsc::channel();
+    thread::spawn(move || {
+        let mut bytes = Vec::new();
+        let _ = tx.send(pipe.read_to_end(&mut bytes).map(|_| bytes));
+    });
+    rx
+}
+
+/// The contents of a pipe being read in the background, `None` when they are
+/// not complete by the deadline.
+fn collect(
+    pipe: Option<mpsc::Receiver<io::Result<Vec<u8>>>>,
+    deadline: Instant,
+) -> io::Result<Option<Vec<u8>>> {
+    let Some(rx) = pipe else {
+        return Ok(Some(vec![]));
+    };
+    match rx.recv_timeout(deadline.saturating_duration_since(Instant::now())) {
+        Ok(contents) => contents.map(Some),
+        Err(_) => Ok(None),
     }
 }
 
diff --git a/src/eval/bytecode/machine.rs b/src/eval/bytecode/machine.rs
index 4037a4c..88d70d2 100644
--- a/src/eval/bytecode/machine.rs
+++ b/src/eval/bytecode/machine.rs
@@ -4134,52 +4134,31 @@ impl BytecodeMachine<'_> {
         }
     }
 
-    /// Collect the raw (unevaluated) element values of a `ListCons` chain.
-    /// Mirrors `io_run::CollectListElements`.
-    pub fn list_element_values(&self, value: &BcValue) -> Result<Vec<BcValue>, ExecutionError> {
+    /// The raw (unevaluated) head and tail of a `ListCons` cell, `None` for
+    /// anything else.
+    pub fn list_cell(&self, value: &BcValue) -> Result<Option<(BcValue, BcValue)>, ExecutionError> {
         let view = MutatorHeapView::new(&self.heap);
         let code = self.program.code.as_slice();
-        let mut out = Vec::new();
-        let mut current = value.clone();
-        while let BcValue::Closure(c) = current.clone() {
-            let Some((tag, offsets)) = decode_cons(&self.program, &self.decoded, &c) else {
-                break;
-            };
-            if tag == DataConstructor::ListNil.tag() {
-                break;
-            }
-            if tag != DataConstructor::ListCons.tag() {
-                break;
-            }
-            let head_ref = arg_ref(
-                code,
-                *offsets.first().ok_or_else(|| {
-                    ExecutionError::Panic(self.state.annotation, "malformed list cons".to_string())
-                })?,
-            )?;
-            let head = resolve_ref(
-                view,
-                &self.state.constants,
-                c.env(),
-                self.state.globals,
-                head_ref,
-            )?;
-            out.push(head);
-            let tail_ref = arg_ref(
-                code,
-                *offsets.get(1).ok_or_else(|| {
-                    ExecutionError::Panic(self.state.annotation, "malformed list cons".to_string())
-                })?,
-            )?;
-            current = resolve_ref(
+        let BcValue::Closure(c) = value else {
+            return Ok(None);
+        };
+        let offsets = match decode_cons(&self.program, &self.decoded, c) {
+            Some((tag, offsets)) if tag == DataConstructor::ListCons.tag() => offsets,
+            _ => return Ok(None),
+        };
+        let field = |i: usize| {
+            let offset = *offsets.get(i).ok_or_else(|| {
+                ExecutionError::Panic(self.state.annotation, "malformed list cons".to_string())
+            })?;
+            resolve_ref(
                 view,
                 &self.state.constants,
                 c.env(),
                 self.state.globals,
-                tail_ref,
-            )?;
-        }
-        Ok(out)
+                arg_ref(code, offset)?,
+            )
+        };
+        Ok(Some((field(0)?, field(1)?)))
     }
 
     /// If `value` is a boxed scalar whose inner field is still an unevaluated
-- 
2.43.0


From 49a41310f503775fb9db2533e25738f1a9b272a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 42/58] fix: a record spec does not match what is not a block

---
 lib/prelude.eu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index 3c2bddf..0018163 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -2293,7 +2293,7 @@ as-spec(t):
           check: v lookup(k) match?(inner to-spec-td)
         }.(v has(k) then(check, is-opt))
 
-      pred(v): rec elements all(check-entry(v))
+      pred(v): (v block?) ∧ (rec elements all(check-entry(v)))
     }.pred
 
     to-spec-td[tag : rest]:
-- 
2.43.0


From 6f65af6502ed60e875eb41cf77e9556746e5d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 43/58] fix: literal lists meet list annotations under gradual
 consistency

---
 src/core/typecheck/subtype.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/typecheck/subtype.rs b/src/core/typecheck/subtype.rs
index a429a0b..991df37 100644
--- a/src/core/typecheck/subtype.rs
+++ b/src/core/typecheck/subtype.rs
@@ -475,6 +475,18 @@ fn is_consistent_co(s: &Type, t: &Type, assumed: &mut Vec<(Type, Type)>) -> bool
             .iter()
             .zip(bs.iter())
             .all(|(a, b)| is_consistent_co(a, b, assumed)),
+        // A literal list synthesises to a tuple, so it is checked against a
+        // list annotation element by element — under the gradual relation, as
+        // for any other annotation.
+        (Type::Tuple(elems), _) if s_is_app_con(t, "List") => {
+            let b = t.as_list().unwrap();
+            elems.iter().all(|e| is_consistent_co(e, b, assumed))
+        }
+        // `[never]`, the type of `[]`, fits no tuple.
+        (_, Type::Tuple(elems)) if s.as_list().is_some_and(|a| *a != Type::Never) => {
+            let a = s.as_list().unwrap();
+            elems.iter().all(|e| is_consistent_co(a, e, assumed))
+        }
         (Type::Tuple(elems), _) if s_is_app_con(t, "NonEmpty") => {
             let b = t.as_non_empty().unwrap();
             !elems.is_empty() && elems.iter().all(|e| is_consistent_co(e, b, assumed))
-- 
2.43.0


From 7dc9570cbb77f1d8c43f2b85f46ba4b9fbf72c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 44/58] fix: types are written as they are read back

---
 lib/reflect.eu              | 60 ++++++++++++++++++++++++------
 src/core/typecheck/parse.rs |  9 ++++-
 src/core/typecheck/types.rs | 74 +++++++++++++++++++++++++++++--------
 3 files changed, 115 insertions(+), 28 deletions(-)

diff --git a/lib/reflect.eu b/lib/reflect.eu
index a484a39..c6c8156 100644
--- a/lib/reflect.eu
+++ b/lib/reflect.eu
@@ -25,13 +25,19 @@ type-str(td):
 
     prim-str(name-sym): prim-names lookup-or(name-sym, str.of(name-sym))
 
-    needs-parens: set.from-list[:t-fn, :t-union, :t-partial]
+    # Tags whose rendering binds too loosely to stand where a tighter form is
+    # expected, and so is parenthesised there.
+    loose: set.from-list[:t-fn, :t-union, :t-forall]
+    arrow-loose: set.from-list[:t-fn, :t-union, :t-partial, :t-forall]
+    member-loose: set.from-list[:t-forall]
 
-    wrap(td, s): (td first) ∈ needs-parens then("({s})", s)
+    parens(s): "({s})"
+
+    wrap(tags, td): ((td first) ∈ tags) then(td to-str parens, td to-str)
 
     fn-str(a, b): {
-      a-r: wrap(a, a to-str)
-      b-r: wrap(b, b to-str)
+      a-r: a wrap(arrow-loose)
+      b-r: b wrap(arrow-loose)
     }."{a-r} → {b-r}"
 
     field-str[k, fp]:
@@ -55,17 +61,49 @@ type-str(td):
         inner: (rec elements nil?) ∧ open? then("..", "{body}{tail}")
       }."{lbrace}{inner}{rbrace}"
 
+    optic-head?(f): ((f first) = :t-app) ∧
+      (((f second) = [:t-con, :Lens]) ∨ ((f second) = [:t-con, :Traversal]))
+
+    sugared?(f): (f = [:t-con, :IO]) ∨ (f = [:t-con, :Dict]) ∨
+      (f = [:t-con, :NonEmpty]) ∨ optic-head?(f)
+
+    arg-str(x): ((x first) = :t-app) ∧ (sugared?(x second) not)
+      then(x to-str parens, x wrap(arrow-loose))
+
+    optic-str(f, x): {
+      con: f second second
+      a-str: to-str(f !! 2)
+      x-str: to-str(x)
+    }."{con}({a-str}, {x-str})"
+
     app-str(f, x):
       { x-str: to-str(x)
-        f-str: to-str(f)
+        f-str: f wrap(loose)
+        a-str: x arg-str
       }.(cond[
           f = [:t-con, :IO]       => "IO({x-str})"
         , f = [:t-con, :Dict]     => "Dict({x-str})"
         , f = [:t-con, :NonEmpty] => "NonEmpty([{x-str}])"
-        , "{f-str} {x-str}"
+        , f optic-head?           => optic-str(f, x)
+        , "{f-str} {a-str}"
         ])
 
-    tuple-str(ts): ts map(to-str) str.join-on(", ") "({})"
+    tuple-str(ts):
+      if((ts count) = 1,
+         ts map(to-str) str.join-on("") "({},)",
+         ts map(to-str) str.join-on(", ") "({})")
+
+    partial-str(td): td wrap(loose) "{}?"
+
+    # Backslashes and quotes are escaped, as the type parser expects.
+    lit-str(l): l str.replace(c"([\\\\\"])", c"\\$1") c"\"{}\""
+
+    binders-str(vs): (vs list?) then(vs map(str.of) str.join-on(" "), str.of(vs))
+
+    forall-str(vs, body): {
+      b: vs binders-str
+      s: body to-str
+    }."forall {b}. {s}"
 
     prefix-list-str(prefix, tail):
       { tail-str: to-str(tail)
@@ -82,16 +120,16 @@ type-str(td):
         , tag = :t-fn      => fn-str(r0, r1)
         , tag = :t-con     => "{r0}"
         , tag = :t-app     => app-str(r0, r1)
-        , tag = :t-union   => rest map(to-str) str.join-on(" | ")
-        , tag = :t-partial => "{s0}?"
+        , tag = :t-union   => rest map(wrap(member-loose)) str.join-on(" | ")
+        , tag = :t-partial => partial-str(r0)
         , tag = :t-tuple   => tuple-str(rest)
         , tag = :t-prefix-list => prefix-list-str(r0, r1)
         , tag = :t-record  => record-str(r0, open-flag(rest))
         , tag = :t-var     => "{r0}"
         , tag = :t-lit-sym => ":{r0}"
-        , tag = :t-lit-str => c"\"{r0}\""
+        , tag = :t-lit-str => lit-str(r0)
         , tag = :t-mu      => "{r0}"
-        , tag = :t-forall  => "forall {r0}. {s1}"
+        , tag = :t-forall  => forall-str(r0, r1)
         , tag = :t-lam     => "λ{r0}. {s1}"
         , "any"
         ])
diff --git a/src/core/typecheck/parse.rs b/src/core/typecheck/parse.rs
index 420f6c5..476ac1a 100644
--- a/src/core/typecheck/parse.rs
+++ b/src/core/typecheck/parse.rs
@@ -998,7 +998,7 @@ impl<'a> Parser<'a> {
                             }
                         }
                     }
-                    self.advance()?; // consume '}'
+                    self.expect(&Token::RBrace)?;
                     break;
                 }
                 Token::RBrace => {
@@ -1065,15 +1065,20 @@ impl<'a> Parser<'a> {
 // ── Constraint parsing helpers ───────────────────────────────────────────────
 
 /// Find the byte position of the first top-level `=>` sequence (not inside
-/// `()`, `[]`, or `{}`).  Returns `None` if no such sequence exists.
+/// `()`, `[]`, `{}` or a string literal).  Returns `None` if no such sequence
+/// exists.
 fn find_top_level_fat_arrow(input: &str) -> Option<usize> {
     let bytes = input.as_bytes();
     let mut depth: usize = 0;
+    let mut in_literal = false;
     let mut i = 0;
     while i < bytes.len() {
         // UTF-8: continuation bytes (0x80–0xBF) never match ASCII punctuation,
         // so byte-level scanning is safe here.
         match bytes[i] {
+            b'\\' if in_literal => i += 1,
+            b'"' => in_literal = !in_literal,
+            _ if in_literal => {}
             b'(' | b'[' | b'{' => depth += 1,
             b')' | b']' | b'}' => depth = depth.saturating_sub(1),
             b'=' if depth == 0 && bytes.get(i + 1) == Some(&b'>') => {
diff --git a/src/core/typecheck/types.rs b/src/core/typecheck/types.rs
index 34d49fa..4836f77 100644
--- a/src/core/typecheck/types.rs
+++ b/src/core/typecheck/types.rs
@@ -671,8 +671,11 @@ impl fmt::Display for Type {
             // Recursive type: print just the alias name — never unfold.
             Type::Mu(x, _) => write!(f, "{x}"),
             Type::Function(a, b) => {
-                let lhs_needs_parens = matches!(a.as_ref(), Type::Function(_, _) | Type::Union(_));
-                let rhs_needs_parens = matches!(b.as_ref(), Type::Union(_));
+                let lhs_needs_parens = matches!(
+                    a.as_ref(),
+                    Type::Function(_, _) | Type::Union(_) | Type::Forall(_, _)
+                );
+                let rhs_needs_parens = matches!(b.as_ref(), Type::Union(_) | Type::Forall(_, _));
                 match (lhs_needs_parens, rhs_needs_parens) {
                     (true, true) => write!(f, "({a}) → ({b})"),
                     (true, false) => write!(f, "({a}) → {b}"),
@@ -682,19 +685,24 @@ impl fmt::Display for Type {
             }
             Type::Union(variants) => {
                 // Re-sugar `T | ExecutionError` or `ExecutionError | T` → `T?`.
-                if variants.len() == 2 {
-                    if variants[1] == Type::ExecutionError {
-                        return write!(f, "{}?", variants[0]);
-                    }
-                    if variants[0] == Type::ExecutionError {
-                        return write!(f, "{}?", variants[1]);
-                    }
+                if let Some(inner) = partial_inner(variants) {
+                    return if matches!(
+                        inner,
+                        Type::Union(_) | Type::Function(_, _) | Type::Forall(_, _)
+                    ) {
+                        write!(f, "({inner})?")
+                    } else {
+                        write!(f, "{inner}?")
+                    };
                 }
-                let mut iter = variants.iter();
-                if let Some(first) = iter.next() {
-                    write!(f, "{first}")?;
-                    for t in iter {
-                        write!(f, " | {t}")?;
+                for (i, t) in variants.iter().enumerate() {
+                    if i > 0 {
+                        write!(f, " | ")?;
+                    }
+                    if matches!(t, Type::Forall(_, _)) {
+                        write!(f, "({t})")?;
+                    } else {
+                        write!(f, "{t}")?;
                     }
                 }
                 Ok(())
@@ -741,7 +749,43 @@ fn fmt_app(f: &mut fmt::Formatter<'_>, head: &Type, arg: &Type) -> fmt::Result {
         }
     }
     // Generic application by juxtaposition.
-    write!(f, "{head} {arg}")
+    if matches!(
+        head,
+        Type::Function(_, _) | Type::Union(_) | Type::Forall(_, _)
+    ) {
+        write!(f, "({head}) ")?;
+    } else {
+        write!(f, "{head} ")?;
+    }
+    match arg {
+        Type::Function(_, _) | Type::Union(_) | Type::Forall(_, _) => write!(f, "({arg})"),
+        Type::App(head, _) if !is_sugared_app(head) => write!(f, "({arg})"),
+        _ => write!(f, "{arg}"),
+    }
+}
+
+/// True if `App(head, _)` displays as a self-delimiting form (`[a]`,
+/// `IO(a)`, `Lens(a, b)`) rather than by juxtaposition.
+fn is_sugared_app(head: &Type) -> bool {
+    match head {
+        Type::Con(name) => matches!(
+            name.as_str(),
+            "List" | "IO" | "Dict" | "NonEmpty" | "Random" | "State"
+        ),
+        Type::App(f, _) => {
+            matches!(f.as_ref(), Type::Con(name) if matches!(name.as_str(), "Lens" | "Traversal"))
+        }
+        _ => false,
+    }
+}
+
+/// The `T` of a two-variant union `T | ExecutionError`, in either order, which
+/// displays as `T?`.
+fn partial_inner(variants: &[Type]) -> Option<&Type> {
+    match variants {
+        [t, Type::ExecutionError] | [Type::ExecutionError, t] => Some(t),
+        _ => None,
+    }
 }
 
 // ── humanise ─────────────────────────────────────────────────────────────────
-- 
2.43.0


From ea48ee0faebeafc12daaca821dc462fe2c98e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:27 +0000
Subject: [PATCH 45/58] fix: an alias that is nothing but itself does not
 unfold for ever

---
 src/core/typecheck/check.rs            | 36 ++++++++++++++++++++++----
 src/core/typecheck/resolve_typedata.rs |  8 ++----
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/core/typecheck/check.rs b/src/core/typecheck/check.rs
index a971c13..4e1e9c4 100644
--- a/src/core/typecheck/check.rs
+++ b/src/core/typecheck/check.rs
@@ -708,11 +708,7 @@ impl Checker {
                     // If the alias name still appears free in the resolved body,
                     // the alias is self-referential — wrap in Mu for an
                     // equirecursive type.
-                    if contains_var_named(&resolved, &v.0) {
-                        Type::Mu(v.clone(), Box::new(resolved))
-                    } else {
-                        resolved
-                    }
+                    tie_alias(v, resolved)
                 } else {
                     ty
                 }
@@ -3174,6 +3170,36 @@ pub fn contains_var_named(ty: &Type, name: &str) -> bool {
     }
 }
 
+/// Close the resolved body of the alias `x`: a body that refers back to `x`
+/// is wrapped in `Type::Mu` as an equirecursive type.
+///
+/// An occurrence of `x` that no type constructor guards (`A = A`,
+/// `A = A | number`) says nothing about the type, and would unfold to itself
+/// for ever, so it is dropped; an alias that amounts to nothing else is `any`.
+pub fn tie_alias(x: &TypeVarId, body: Type) -> Type {
+    fn guarded(x: &TypeVarId, ty: Type) -> Option<Type> {
+        match ty {
+            Type::Var(ref v, _) if v == x => None,
+            Type::Union(vs) => {
+                let vs: Vec<Type> = vs.into_iter().filter_map(|v| guarded(x, v)).collect();
+                (!vs.is_empty()).then(|| Type::union(vs))
+            }
+            Type::Mu(y, body) if y != *x => {
+                guarded(x, *body).map(|body| Type::Mu(y, Box::new(body)))
+            }
+            other => Some(other),
+        }
+    }
+    if !contains_var_named(&body, &x.0) {
+        return body;
+    }
+    match guarded(x, body) {
+        None => Type::Any,
+        Some(body) if contains_var_named(&body, &x.0) => Type::Mu(x.clone(), Box::new(body)),
+        Some(body) => body,
+    }
+}
+
 /// Synthesise the type for a primitive literal.
 fn synthesise_primitive(prim: &Primitive) -> Type {
     match prim {
diff --git a/src/core/typecheck/resolve_typedata.rs b/src/core/typecheck/resolve_typedata.rs
index 311b9d6..96498fa 100644
--- a/src/core/typecheck/resolve_typedata.rs
+++ b/src/core/typecheck/resolve_typedata.rs
@@ -16,7 +16,7 @@ use crate::core::expr::{Expr, Primitive, RcExpr};
 use crate::core::typecheck::parse::{parse_scheme, render_scheme};
 use crate::core::typecheck::types::Type;
 
-use super::check::contains_var_named;
+use super::check::tie_alias;
 
 /// Walk `ty`, replacing every `Type::Var(name)` that appears in the alias
 /// map with its registered concrete type.
@@ -34,11 +34,7 @@ fn resolve_aliases(ty: Type, aliases: &HashMap<String, Type>, resolving: &mut Ve
                 resolving.push(v.0.clone());
                 let resolved = resolve_aliases(alias_ty.clone(), aliases, resolving);
                 resolving.pop();
-                if contains_var_named(&resolved, &v.0) {
-                    Type::Mu(v.clone(), Box::new(resolved))
-                } else {
-                    resolved
-                }
+                tie_alias(v, resolved)
             } else {
                 ty
             }
-- 
2.43.0


From 5fb6dea60537e15beab76f87d9572b36070d5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:26 +0000
Subject: [PATCH 46/58] fix: row variables are not bound in a circle when
 records are unified

---
 src/core/typecheck/unify.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/typecheck/unify.rs b/src/core/typecheck/unify.rs
index a8a396a..5e01eb0 100644
--- a/src/core/typecheck/unify.rs
+++ b/src/core/typecheck/unify.rs
@@ -414,7 +414,9 @@ pub fn unify(t1: &Type, t2: &Type, subst: &mut Substitution) -> Result<(), Unify
                             rows: rows2.clone(),
                         }
                     };
-                    if !occurs(r1, &extra_ty) {
+                    // The check has to look through what is already bound: the
+                    // other side's row variable may lead back to this one.
+                    if !occurs(r1, &apply_subst(&extra_ty, subst)) {
                         subst.insert(r1.clone(), extra_ty);
                     }
                 }
@@ -451,7 +453,7 @@ pub fn unify(t1: &Type, t2: &Type, subst: &mut Substitution) -> Result<(), Unify
                             rows: rows1.clone(),
                         }
                     };
-                    if !occurs(r2, &extra_ty) {
+                    if !occurs(r2, &apply_subst(&extra_ty, subst)) {
                         subst.insert(r2.clone(), extra_ty);
                     }
                 }
-- 
2.43.0


From b5c6958fee76a66c65ec70e7c28fbe2eaa89171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:26 +0000
Subject: [PATCH 47/58] fix: the language server keeps a position beyond a
 line's end on that line

---
 src/driver/lsp/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/driver/lsp/mod.rs b/src/driver/lsp/mod.rs
index 2ded8d9..291985f 100644
--- a/src/driver/lsp/mod.rs
+++ b/src/driver/lsp/mod.rs
@@ -195,8 +195,13 @@ fn lsp_position_to_byte_offset(text: &str, pos: lsp_types::Position) -> usize {
         return text.len();
     }
 
-    // Walk UTF-16 code units within the target line.
-    let line_text = &text[line_start..];
+    // Walk UTF-16 code units within the target line. A character beyond the
+    // end of the line stands for the end of the line, before its line break.
+    let line_text = text[line_start..].split('\n').next().unwrap_or_default();
+    let line_text = match line_text.strip_suffix('\r') {
+        Some(t) if line_start + line_text.len() < text.len() => t,
+        _ => line_text,
+    };
     let mut utf16_count = 0u32;
     let mut byte_offset = 0usize;
 
-- 
2.43.0


From 7e1b054600d8fafc42234d22133c58a3c1f50aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:24 +0000
Subject: [PATCH 48/58] fix: the language server warns of what `eu check` warns
 of

---
 src/core/typecheck/check.rs | 12 ++++++++++++
 src/driver/lsp/mod.rs       | 18 ++++++++++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/core/typecheck/check.rs b/src/core/typecheck/check.rs
index 4e1e9c4..68856c2 100644
--- a/src/core/typecheck/check.rs
+++ b/src/core/typecheck/check.rs
@@ -3522,6 +3522,18 @@ pub fn type_check_full(expr: &RcExpr) -> TypeCheckResult {
     checker.into_results()
 }
 
+/// As [`type_check_full`], with pre-cook operator type overloads (see
+/// [`type_check_with_operator_overloads`]).
+pub fn type_check_full_with_operator_overloads(
+    expr: &RcExpr,
+    operator_overloads: HashMap<String, TypeScheme>,
+) -> TypeCheckResult {
+    let mut checker = Checker::new();
+    checker.operator_overloads = operator_overloads;
+    checker.check_expr(expr);
+    checker.into_results()
+}
+
 /// Check the prelude expression and capture a `PreludeSummary` for caching.
 ///
 /// The checker's `keep_root_scope` flag is set so that the outermost
diff --git a/src/driver/lsp/mod.rs b/src/driver/lsp/mod.rs
index 291985f..f6ed133 100644
--- a/src/driver/lsp/mod.rs
+++ b/src/driver/lsp/mod.rs
@@ -1185,7 +1185,10 @@ fn run_pipeline(
     text: &str,
     path: Option<&std::path::Path>,
 ) -> Result<PipelineCacheEntry, PipelineError> {
-    use crate::core::typecheck::check::type_check_full;
+    use crate::core::typecheck::check::{
+        parse_operator_overloads, type_check_full_with_operator_overloads,
+    };
+    use crate::core::verify::deprecation::check_deprecated_references;
     use crate::driver::source::SourceLoader;
     use crate::syntax::input::{Input, Locator};
 
@@ -1239,6 +1242,12 @@ fn run_pipeline(
     // Merge hash: proxy — same desugared inputs → same merged output.
     let merge_hash = desugar_hash;
 
+    // Operator annotations do not survive cook: take them first, as
+    // `eu check` does.
+    loader.extract_operators();
+    let (operator_overloads, operator_annotation_warnings) =
+        parse_operator_overloads(&loader.unit_interface().operator_type_strings());
+
     if let Err(e) = loader.cook() {
         return Err(make_pipeline_error(&loader, &e));
     }
@@ -1268,7 +1277,12 @@ fn run_pipeline(
     let inline_hash = eliminate_hash;
 
     let core_expr = loader.core().expr.clone();
-    let result = type_check_full(&core_expr);
+    let mut result = type_check_full_with_operator_overloads(&core_expr, operator_overloads);
+    result.warnings.extend(operator_annotation_warnings);
+    result.warnings.extend(check_deprecated_references(
+        &core_expr,
+        &loader.core().deprecations,
+    ));
 
     // Type-check hash: derived from the actual output (warnings + binding names)
     // so that a refactoring that preserves types produces the same hash even
-- 
2.43.0


From 3299b4e4032c9631acfc5dc19876a487da518adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 49/58] fix: the language server places only the document's own
 problems in the document

---
 src/driver/lsp/mod.rs | 76 +++++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/src/driver/lsp/mod.rs b/src/driver/lsp/mod.rs
index f6ed133..12d5e4d 100644
--- a/src/driver/lsp/mod.rs
+++ b/src/driver/lsp/mod.rs
@@ -48,7 +48,7 @@ use lsp_types::{
     TextDocumentSyncCapability, TextDocumentSyncKind, Url, WorkspaceEdit,
 };
 
-use crate::common::sourcemap::SourceMap;
+use crate::common::sourcemap::{Smid, SourceMap};
 use crate::core::typecheck::types::Type;
 
 use self::query::{
@@ -1145,6 +1145,14 @@ fn spawn_pipeline(
         .expect("failed to spawn LSP pipeline thread");
 }
 
+/// Convert a range of byte offsets in `text` to an LSP range.
+fn byte_range_to_lsp_range(text: &str, start: usize, end: usize) -> lsp_types::Range {
+    diagnostics::text_range_to_lsp_range(
+        text,
+        rowan::TextRange::new((start as u32).into(), (end.max(start) as u32).into()),
+    )
+}
+
 /// Run the full SourceLoader pipeline on the given document text.
 ///
 /// Uses `Locator::Buffer` for the primary document so that unsaved
@@ -1155,25 +1163,18 @@ fn spawn_pipeline(
 /// extracted from the loader's source map and file store.
 fn make_pipeline_error(
     loader: &crate::driver::source::SourceLoader,
+    doc_input: &crate::syntax::input::Input,
+    text: &str,
     e: &crate::driver::error::EucalyptError,
 ) -> PipelineError {
-    use codespan_reporting::files::Files;
     let diag = e.to_diagnostic(loader.source_map());
-    let range = diag.labels.first().and_then(|label| {
-        let files = loader.files();
-        let start = files.location(label.file_id, label.range.start).ok()?;
-        let end = files.location(label.file_id, label.range.end).ok()?;
-        Some(lsp_types::Range {
-            start: lsp_types::Position {
-                line: (start.line_number - 1) as u32,
-                character: (start.column_number - 1) as u32,
-            },
-            end: lsp_types::Position {
-                line: (end.line_number - 1) as u32,
-                character: (end.column_number - 1) as u32,
-            },
-        })
-    });
+    // Only a label in the document itself names a place in the document.
+    let doc_file = loader.file_id_for(doc_input.locator());
+    let range = diag
+        .labels
+        .iter()
+        .find(|label| Some(label.file_id) == doc_file)
+        .map(|label| byte_range_to_lsp_range(text, label.range.start, label.range.end));
     PipelineError {
         message: format!("{e}"),
         range,
@@ -1210,6 +1211,7 @@ fn run_pipeline(
     };
 
     let inputs = vec![prelude, doc_input];
+    let doc_input = &inputs[1];
     let mut loader = SourceLoader::new(vec![]);
 
     // Per-stage content hashes.
@@ -1223,12 +1225,12 @@ fn run_pipeline(
 
     for input in &inputs {
         if let Err(e) = loader.load(input) {
-            return Err(make_pipeline_error(&loader, &e));
+            return Err(make_pipeline_error(&loader, doc_input, text, &e));
         }
     }
     for input in &inputs {
         if let Err(e) = loader.translate(input) {
-            return Err(make_pipeline_error(&loader, &e));
+            return Err(make_pipeline_error(&loader, doc_input, text, &e));
         }
     }
 
@@ -1236,7 +1238,7 @@ fn run_pipeline(
     let desugar_hash = file_text_hash;
 
     if let Err(e) = loader.merge_units(&inputs) {
-        return Err(make_pipeline_error(&loader, &e));
+        return Err(make_pipeline_error(&loader, doc_input, text, &e));
     }
 
     // Merge hash: proxy — same desugared inputs → same merged output.
@@ -1249,7 +1251,7 @@ fn run_pipeline(
         parse_operator_overloads(&loader.unit_interface().operator_type_strings());
 
     if let Err(e) = loader.cook() {
-        return Err(make_pipeline_error(&loader, &e));
+        return Err(make_pipeline_error(&loader, doc_input, text, &e));
     }
 
     // Cook hash: proxy — same merge input → same cooked output.
@@ -1268,7 +1270,7 @@ fn run_pipeline(
     let alias_types_pre = crate::core::typecheck::check::extract_aliases(&loader.core().expr);
 
     if let Err(e) = loader.eliminate() {
-        return Err(make_pipeline_error(&loader, &e));
+        return Err(make_pipeline_error(&loader, doc_input, text, &e));
     }
 
     // Eliminate hash: proxy — same cook input → same eliminated output.
@@ -1284,6 +1286,19 @@ fn run_pipeline(
         &loader.core().deprecations,
     ));
 
+    // A warning about an imported file has no place in the document: drop
+    // the location, so its offsets are not read as offsets in the document.
+    let doc_file = loader.file_id_for(doc_input.locator());
+    for warning in &mut result.warnings {
+        let file = loader
+            .source_map()
+            .source_info_for_smid(warning.smid)
+            .and_then(|info| info.file);
+        if file != doc_file {
+            warning.smid = Smid::default();
+        }
+    }
+
     // Type-check hash: derived from the actual output (warnings + binding names)
     // so that a refactoring that preserves types produces the same hash even
     // when the source text differs.
@@ -1344,21 +1359,18 @@ fn run_pipeline(
         .collect();
 
     // Flatten the Smid-keyed lambda_params into (line, col, name) keys
-    // using the source map for position resolution.
+    // using the source map for position resolution: those of the document
+    // itself, not of the files it imports.
     let mut lambda_params = HashMap::new();
     {
-        use codespan_reporting::files::Files;
-        let files = loader.files();
         let sm = loader.source_map();
         for (smid, params) in &result.lambda_params {
             if let Some(info) = sm.source_info_for_smid(*smid) {
-                if let (Some(file_id), Some(span)) = (info.file, info.span) {
-                    if let Ok(loc) = files.location(file_id, span.start().into()) {
-                        let line = (loc.line_number - 1) as u32;
-                        let col = (loc.column_number - 1) as u32;
-                        for (name, ty) in params {
-                            lambda_params.insert((line, col, name.clone()), ty.clone());
-                        }
+                if let (Some(span), true) = (info.span, info.file == doc_file) {
+                    let start = usize::from(span.start());
+                    let pos = byte_range_to_lsp_range(text, start, start).start;
+                    for (name, ty) in params {
+                        lambda_params.insert((pos.line, pos.character, name.clone()), ty.clone());
                     }
                 }
             }
-- 
2.43.0


From 852b485f1df450d1937d182ffff155e0a0981278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:06 +0000
Subject: [PATCH 50/58] fix: blocks made from lists cross the parallel boundary

---
 src/eval/stg/parallel/serialise.rs | 53 +++++++++++++++++++++---------
 src/eval/stg/tags.rs               |  2 +-
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/eval/stg/parallel/serialise.rs b/src/eval/stg/parallel/serialise.rs
index 0601310..b8ab1a7 100644
--- a/src/eval/stg/parallel/serialise.rs
+++ b/src/eval/stg/parallel/serialise.rs
@@ -43,7 +43,8 @@
 //!   0x05 string   u32 length + UTF-8 bytes
 //!   0x06 zdt      u32 length + RFC 3339 UTF-8 bytes
 //!   0x07 list     u32 count + `count` encoded values
-//!   0x08 block    u32 count + `count` × (encoded key scalar, encoded value)
+//!   0x08 block    u32 count + `count` × (encoded key scalar, encoded value),
+//!                 or for an element which is a key-value list, 0x0B + list
 //!   0x09 meta     encoded metadata value + encoded body value
 //!   0x0A type-data u32 length + UTF-8 bytes (the type-DSL text, e.g. "null")
 //! ```
@@ -74,6 +75,7 @@ const TAG_LIST: u8 = 0x07;
 const TAG_BLOCK: u8 = 0x08;
 const TAG_META: u8 = 0x09;
 const TAG_TYPEDATA: u8 = 0x0A;
+const TAG_KVLIST: u8 = 0x0B;
 
 const NUM_U64: u8 = 0;
 const NUM_I64: u8 = 1;
@@ -450,21 +452,32 @@ fn serialise_block(
                     machine.gc_root_set(cur_slot, tail);
                     let pair = machine.force(pair)?;
                     let pair_slot = machine.gc_root_push(pair);
-                    // Key: an unboxed symbol (or string) native in field 0.
-                    // Read and encoded with no intervening force — a
-                    // `Native::Str` carries a raw heap pointer.
                     let pair = machine.gc_root_get(pair_slot);
-                    let key = machine.field_native(view, &pair, 0).ok_or_else(|| {
-                        not_serialisable(smid, combinator, "non-scalar block key")
-                    })?;
-                    encode_scalar(machine, view, &key, combinator, out)?;
-                    // Value: field 1, forced and recursively serialised — this
-                    // is where a `:suppress`/`:doc` annotation is recovered.
-                    let pair = machine.gc_root_get(pair_slot);
-                    let value = machine
-                        .data_field(view, &pair, 1)
-                        .ok_or_else(|| corrupt(smid, "block value"))?;
-                    force_and_serialise(machine, view, value, combinator, out)?;
+                    if machine.data_tag(view, &pair) == Some(DataConstructor::BlockKvList.tag()) {
+                        // An element of a block made from a list (`block`,
+                        // `map-values`, …): the `[key, value]` list itself.
+                        let kv = machine
+                            .data_field(view, &pair, 0)
+                            .ok_or_else(|| not_serialisable(smid, combinator, "malformed block"))?;
+                        out.push(TAG_KVLIST);
+                        force_and_serialise(machine, view, kv, combinator, out)?;
+                    } else {
+                        // Key: an unboxed symbol (or string) native in field 0.
+                        // Read and encoded with no intervening force — a
+                        // `Native::Str` carries a raw heap pointer.
+                        let pair = machine.gc_root_get(pair_slot);
+                        let key = machine.field_native(view, &pair, 0).ok_or_else(|| {
+                            not_serialisable(smid, combinator, "non-scalar block key")
+                        })?;
+                        encode_scalar(machine, view, &key, combinator, out)?;
+                        // Value: field 1, forced and recursively serialised — this
+                        // is where a `:suppress`/`:doc` annotation is recovered.
+                        let pair = machine.gc_root_get(pair_slot);
+                        let value = machine
+                            .data_field(view, &pair, 1)
+                            .ok_or_else(|| corrupt(smid, "block value"))?;
+                        force_and_serialise(machine, view, value, combinator, out)?;
+                    }
                     machine.gc_root_truncate(pair_slot);
                     count += 1;
                     let tail = machine.gc_root_get(cur_slot);
@@ -535,6 +548,16 @@ pub fn deserialise_value(
             let count = read_u32(cur, smid)?;
             let mut pairs = Vec::with_capacity(count as usize);
             for _ in 0..count {
+                if cur.first() == Some(&TAG_KVLIST) {
+                    read_u8(cur, smid)?;
+                    let kv = deserialise_value(machine, view, cur)?;
+                    pairs.push(machine.data_value(
+                        view,
+                        DataConstructor::BlockKvList.tag(),
+                        &[kv],
+                    )?);
+                    continue;
+                }
                 // Key scalar → rebuild as an unboxed native, then value.
                 let key = deserialise_key_native(machine, view, cur)?;
                 let value = deserialise_value(machine, view, cur)?;
diff --git a/src/eval/stg/tags.rs b/src/eval/stg/tags.rs
index abe8380..6ec4c34 100644
--- a/src/eval/stg/tags.rs
+++ b/src/eval/stg/tags.rs
@@ -87,7 +87,7 @@ impl DataConstructor {
             DataConstructor::ListCons => 2,
             DataConstructor::Block => 2,
             DataConstructor::BlockPair => 2,
-            DataConstructor::BlockKvList => 2,
+            DataConstructor::BlockKvList => 1,
             DataConstructor::BoxedZdt => 1,
             DataConstructor::IoReturn => 2,
             DataConstructor::IoBind => 3,
-- 
2.43.0


From 31be28baaae9d142466baa2f4bc30bbe53aebe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 51/58] fix: times of any year cross the parallel boundary

---
 src/eval/stg/parallel/serialise.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/eval/stg/parallel/serialise.rs b/src/eval/stg/parallel/serialise.rs
index b8ab1a7..7d1eafd 100644
--- a/src/eval/stg/parallel/serialise.rs
+++ b/src/eval/stg/parallel/serialise.rs
@@ -41,7 +41,7 @@
 //!   0x03 number   1-byte kind (0=u64,1=i64,2=f64) + 8-byte LE payload
 //!   0x04 symbol   u32 length + UTF-8 bytes
 //!   0x05 string   u32 length + UTF-8 bytes
-//!   0x06 zdt      u32 length + RFC 3339 UTF-8 bytes
+//!   0x06 zdt      i64 seconds + u32 nanoseconds + i32 offset seconds
 //!   0x07 list     u32 count + `count` encoded values
 //!   0x08 block    u32 count + `count` × (encoded key scalar, encoded value),
 //!                 or for an element which is a key-value list, 0x0B + list
@@ -49,7 +49,7 @@
 //!   0x0A type-data u32 length + UTF-8 bytes (the type-DSL text, e.g. "null")
 //! ```
 
-use chrono::DateTime;
+use chrono::{DateTime, FixedOffset};
 use serde_json::Number;
 
 use crate::common::sourcemap::Smid;
@@ -349,7 +349,9 @@ fn encode_scalar(
         }
         Native::Zdt(dt) => {
             out.push(TAG_ZDT);
-            write_len_bytes(out, dt.to_rfc3339().as_bytes());
+            out.extend_from_slice(&dt.timestamp().to_le_bytes());
+            write_u32(out, dt.timestamp_subsec_nanos());
+            out.extend_from_slice(&dt.offset().local_minus_utc().to_le_bytes());
             Ok(())
         }
         Native::Index(_)
@@ -525,8 +527,13 @@ pub fn deserialise_value(
             machine.data_value(view, DataConstructor::BoxedSymbol.tag(), &[field])
         }
         TAG_ZDT => {
-            let s = read_str(cur, smid)?;
-            let dt = DateTime::parse_from_rfc3339(&s).map_err(|_| corrupt(smid, "bad rfc3339"))?;
+            let secs = read_u64(cur, smid)? as i64;
+            let nanos = read_u32(cur, smid)?;
+            let offset = read_u32(cur, smid)? as i32;
+            let dt = DateTime::from_timestamp(secs, nanos)
+                .zip(FixedOffset::east_opt(offset))
+                .map(|(dt, offset)| dt.with_timezone(&offset))
+                .ok_or_else(|| corrupt(smid, "bad time"))?;
             let field = machine.native_value(view, Native::Zdt(dt))?;
             machine.data_value(view, DataConstructor::BoxedZdt.tag(), &[field])
         }
-- 
2.43.0


From 015214b8c6bc6600ecf4bfd8d21afd8b1f8d188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:09 +0000
Subject: [PATCH 52/58] fix: what a list, a block or a function holds is
 evaluated once

The demand analysis took a reference from a constructor field or from the
body of a lambda for a single use, so the binding it names was compiled
without an update and evaluated again for each use of the field and each
call. For a value read from a stream, each evaluation gave another value.
---
 src/core/analyse_demand.rs | 45 +++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/core/analyse_demand.rs b/src/core/analyse_demand.rs
index a8cb01e..3bec08e 100644
--- a/src/core/analyse_demand.rs
+++ b/src/core/analyse_demand.rs
@@ -291,8 +291,7 @@ fn merge_envs(a: &DemandEnv, b: &DemandEnv) -> DemandEnv {
 }
 
 /// Demands placed by an expression that need not be evaluated when its
-/// context is: constructor fields and the bodies of lambdas. Uses still
-/// count towards cardinality, but nothing is strict.
+/// context is. Uses still count towards cardinality, but nothing is strict.
 fn lazy_env(env: DemandEnv) -> DemandEnv {
     env.into_iter()
         .map(|(key, demand)| {
@@ -307,6 +306,15 @@ fn lazy_env(env: DemandEnv) -> DemandEnv {
         .collect()
 }
 
+/// Demands placed by constructor fields and by the bodies of lambdas: need
+/// not be evaluated at all, and may be evaluated many times by whatever
+/// holds the structure or calls the function.
+fn shared_env(env: DemandEnv) -> DemandEnv {
+    env.into_iter()
+        .map(|(key, demand)| (key, demand.scale(Demand::lazy_multi())))
+        .collect()
+}
+
 /// The demand analyser.
 pub struct DemandAnalyser {
     /// Intrinsic seed signatures.
@@ -384,7 +392,10 @@ impl DemandAnalyser {
 
             Expr::Let(s, scope, let_type) => self.analyse_let(*s, scope, *let_type),
 
-            Expr::Lam(s, inl, scope) => self.analyse_lam(*s, *inl, scope),
+            Expr::Lam(s, inl, scope) => {
+                let (new_lam, env) = self.analyse_lam(*s, *inl, scope);
+                (new_lam, shared_env(env))
+            }
 
             Expr::App(s, f, args) => self.analyse_app(*s, f, args),
 
@@ -410,7 +421,7 @@ impl DemandAnalyser {
                 let mut new_xs = Vec::with_capacity(xs.len());
                 for x in xs {
                     let (new_x, x_env) = self.analyse_expr(x);
-                    env = merge_envs(&env, &lazy_env(x_env));
+                    env = merge_envs(&env, &shared_env(x_env));
                     new_xs.push(new_x);
                 }
                 (RcExpr::from(Expr::List(*s, new_xs)), env)
@@ -421,7 +432,7 @@ impl DemandAnalyser {
                 let mut new_entries = Vec::new();
                 for (k, v) in block_map.iter() {
                     let (new_v, v_env) = self.analyse_expr(v);
-                    env = merge_envs(&env, &lazy_env(v_env));
+                    env = merge_envs(&env, &shared_env(v_env));
                     new_entries.push((k.clone(), new_v));
                 }
                 (
@@ -433,7 +444,7 @@ impl DemandAnalyser {
             Expr::Meta(s, e, m) => {
                 let (new_e, e_env) = self.analyse_expr(e);
                 let (new_m, m_env) = self.analyse_expr(m);
-                let env = merge_envs(&e_env, &lazy_env(m_env));
+                let env = merge_envs(&e_env, &shared_env(m_env));
                 (RcExpr::from(Expr::Meta(*s, new_e, new_m)), env)
             }
 
@@ -442,7 +453,7 @@ impl DemandAnalyser {
                 let mut new_xs = Vec::with_capacity(xs.len());
                 for x in xs {
                     let (new_x, x_env) = self.analyse_expr(x);
-                    env = merge_envs(&env, &lazy_env(x_env));
+                    env = merge_envs(&env, &shared_env(x_env));
                     new_xs.push(new_x);
                 }
                 (RcExpr::from(Expr::ArgTuple(*s, new_xs)), env)
@@ -690,7 +701,8 @@ impl DemandAnalyser {
         (RcExpr::from(Expr::Let(s, new_scope, let_type)), outer_env)
     }
 
-    /// Analyse a `Lam` expression.
+    /// Analyse a `Lam` expression, returning the demands which one call
+    /// places on its free variables.
     fn analyse_lam(&mut self, s: Smid, inl: bool, scope: &LamScope<RcExpr>) -> (RcExpr, DemandEnv) {
         let num_params = scope.pattern.len();
         for param in &scope.pattern {
@@ -714,9 +726,9 @@ impl DemandAnalyser {
         let sig_key = Rc::as_ptr(&new_body.inner) as usize;
         self.signatures.insert(sig_key, sig);
 
-        // The outer env is the body env with scope-0 entries removed; the
-        // lambda itself may never be called
-        let outer_env = lazy_env(unshift_env(&body_env));
+        // The outer env of a single call is the body env with scope-0
+        // entries removed
+        let outer_env = unshift_env(&body_env);
 
         let new_scope = Scope {
             pattern: scope.pattern.clone(),
@@ -728,8 +740,15 @@ impl DemandAnalyser {
 
     /// Analyse an `App` expression.
     fn analyse_app(&mut self, s: Smid, f: &RcExpr, args: &[RcExpr]) -> (RcExpr, DemandEnv) {
-        // Analyse the function
-        let (new_f, f_env) = self.analyse_expr(f);
+        // Analyse the function. A lambda in function position is called no
+        // more than once, and not at all if too few arguments are given.
+        let (new_f, f_env) = match &*f.inner {
+            Expr::Lam(ls, inl, scope) if scope.pattern.len() <= args.len() => {
+                let (new_f, f_env) = self.analyse_lam(*ls, *inl, scope);
+                (new_f, lazy_env(f_env))
+            }
+            _ => self.analyse_expr(f),
+        };
         let mut env = f_env;
 
         // Try to find the function's signature
-- 
2.43.0


From d29400796afa4992182f8c4af68967364a5400fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:13 +0000
Subject: [PATCH 53/58] fix: a field of a list cell or block entry is evaluated
 once

Matching on a constructor whose fields could not share its frame (the last
cell of a literal list, an entry of a block) copied an unevaluated field, as
did looking up a key, and each copy was then evaluated again for every use:
exponential time for a chain of blocks, and another value each time for one
read from a stream. Such a field is now referred to through the frame that
holds it, so that the first use updates it for all.
---
 src/eval/bytecode/machine.rs   | 69 +++++++++++++++++++++++++---------
 src/eval/bytecode/predecode.rs |  5 +++
 2 files changed, 56 insertions(+), 18 deletions(-)

diff --git a/src/eval/bytecode/machine.rs b/src/eval/bytecode/machine.rs
index 88d70d2..5994593 100644
--- a/src/eval/bytecode/machine.rs
+++ b/src/eval/bytecode/machine.rs
@@ -848,6 +848,8 @@ fn bc_classify_args(
 fn env_from_data_args(
     state: &BcMachineState,
     view: MutatorHeapView<'_>,
+    prog: &BytecodeProgram,
+    decoded: &DecodedProgram,
     args: &[DecodedRef],
     next: RefPtr<BcEnvFrame>,
 ) -> Result<RefPtr<BcEnvFrame>, ExecutionError> {
@@ -887,35 +889,56 @@ fn env_from_data_args(
                 ))?
                 .as_ptr())
         }
-        BcArgPattern::RequiresCopy => env_from_data_args_copy(state, view, args, next),
+        BcArgPattern::RequiresCopy => {
+            env_from_data_args_copy(state, view, prog, decoded, args, next)
+        }
+    }
+}
+
+/// A field of the constructor closure `cons`, for use outside its frame.
+///
+/// A copy of an unevaluated thunk would be evaluated apart from the original,
+/// which each use of the field would then do again, so such a field is
+/// referred to through its own `OP_ATOM` (at `off`) in the constructor's
+/// environment: entering that evaluates and updates the original.
+fn shared_field(
+    decoded: &DecodedProgram,
+    cons: &BcClosure,
+    off: CodeRef,
+    value: BcValue,
+) -> BcValue {
+    match value {
+        BcValue::Closure(c) if c.update() => {
+            BcValue::Closure(BcClosure::new(peek_code_ref(decoded, off), cons.env()))
+        }
+        value => value,
     }
 }
 
 /// Build a branch/handler env frame by copying the constructor's field
 /// values (the copy path of `vm.rs` `env_from_data_args_copy`, `:978`). Used
 /// when the arg pattern cannot share backing (non-local refs, > 4 args, or an
-/// index reaching a deeper frame).
+/// index reaching a deeper frame). A field which is still an unevaluated
+/// thunk is not copied but aliased (see [`shared_field`]).
 fn env_from_data_args_copy(
     state: &BcMachineState,
     view: MutatorHeapView<'_>,
+    prog: &BytecodeProgram,
+    decoded: &DecodedProgram,
     args: &[DecodedRef],
     next: RefPtr<BcEnvFrame>,
 ) -> Result<RefPtr<BcEnvFrame>, ExecutionError> {
-    let cons_env = state
-        .current
-        .as_closure()
-        .ok_or_else(|| {
-            ExecutionError::Panic(
-                state.annotation,
-                "return_data on a native value".to_string(),
-            )
-        })?
-        .env();
-    let local = view.scoped(cons_env);
+    let cons = state.current.as_closure().ok_or_else(|| {
+        ExecutionError::Panic(
+            state.annotation,
+            "return_data on a native value".to_string(),
+        )
+    })?;
+    let local = view.scoped(cons.env());
     let globals = view.scoped(state.globals);
 
     let mut array = Array::with_capacity(&view, args.len());
-    for a in args {
+    for (n, a) in args.iter().enumerate() {
         let v = match a {
             DecodedRef::Local(i) => (*local)
                 .get(&view, *i as usize)
@@ -933,6 +956,13 @@ fn env_from_data_args_copy(
                 }
             },
         };
+        let v = match &v {
+            BcValue::Closure(c) if c.update() => match decode_cons(prog, decoded, cons) {
+                Some((_, offsets)) => shared_field(decoded, cons, offsets[n], v),
+                None => v,
+            },
+            _ => v,
+        };
         array.push(&view, v);
     }
     Ok(view
@@ -1062,8 +1092,11 @@ fn bc_lookup_in_block(
                 return None;
             };
             let (_, poffs) = decode_cons(prog, decoded, pc)?;
-            let val_ref = arg_ref(prog.code.as_slice(), *poffs.get(1)?).ok()?;
-            return resolve_ref(view, &state.constants, pc.env(), state.globals, val_ref).ok();
+            let val_off = *poffs.get(1)?;
+            let val_ref = arg_ref(prog.code.as_slice(), val_off).ok()?;
+            return resolve_ref(view, &state.constants, pc.env(), state.globals, val_ref)
+                .ok()
+                .map(|value| shared_field(decoded, pc, val_off, value));
         }
         let tail_ref = arg_ref(prog.code.as_slice(), *loffs.get(1)?).ok()?;
         current = resolve_ref(view, &state.constants, c.env(), state.globals, tail_ref).ok()?;
@@ -1102,7 +1135,7 @@ pub fn return_data(
                 let env = if args.is_empty() {
                     environment
                 } else {
-                    env_from_data_args(state, view, args, environment)?
+                    env_from_data_args(state, view, prog, decoded, args, environment)?
                 };
                 state.current = BcValue::Closure(BcClosure::new(body, env));
             } else if let Some(fb) = fallback {
@@ -1137,7 +1170,7 @@ pub fn return_data(
                 let env = if args.is_empty() {
                     environment
                 } else {
-                    env_from_data_args(state, view, args, environment)?
+                    env_from_data_args(state, view, prog, decoded, args, environment)?
                 };
                 state.current = BcValue::Closure(BcClosure::new(body, env));
             } else if fallback != NO_BRANCH {
diff --git a/src/eval/bytecode/predecode.rs b/src/eval/bytecode/predecode.rs
index 5b9a77e..a962fc9 100644
--- a/src/eval/bytecode/predecode.rs
+++ b/src/eval/bytecode/predecode.rs
@@ -349,6 +349,11 @@ impl<'a> Decoder<'a> {
                 let tag = read_u8(code, &mut pc);
                 let arg_offs = read_arg_offsets(code, &mut pc);
                 let (start, len) = self.push_refs(&arg_offs)?;
+                // Each field's atom is code too: a field which is an
+                // unevaluated thunk is referred to through it.
+                for off in &arg_offs {
+                    self.ordinal_for(*off);
+                }
                 Instr {
                     op,
                     flags: 0,
-- 
2.43.0


From de4aa7d189ee716e6599ebaf39b251d0a828770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:41 +0000
Subject: [PATCH 54/58] fix: all of a value's metadata crosses the parallel
 boundary

Forcing a value recorded only the innermost of the metadata it strips, and
an intrinsic which forced a value on the way lost it altogether, so that
e.g. a suppressed declaration of an annotated value came to light again.
---
 src/eval/bytecode/machine.rs       | 58 ++++++++++++++++++++----------
 src/eval/machine/intrinsic.rs      |  4 +--
 src/eval/stg/parallel/serialise.rs | 17 ++++++---
 3 files changed, 53 insertions(+), 26 deletions(-)

diff --git a/src/eval/bytecode/machine.rs b/src/eval/bytecode/machine.rs
index 5994593..d6ac244 100644
--- a/src/eval/bytecode/machine.rs
+++ b/src/eval/bytecode/machine.rs
@@ -336,10 +336,16 @@ pub struct BcMachineState {
     /// Diagnostic messages recorded during this run (e.g. `EXPECT FAILED`
     /// from `__EXPECT`) — mirrors `MachineState::diagnostics` in `vm.rs`.
     pub diagnostics: Vec<String>,
-    /// Metadata stripped by the most recent top-of-stack `Meta` return —
-    /// mirrors `MachineState::stripped_meta` in `vm.rs`. A live heap handle,
-    /// so it is scanned and pointer-updated with the other roots.
-    pub stripped_meta: Option<BcValue>,
+    /// Metadata stripped by the top-of-stack `Meta` returns of the current
+    /// (sub-)run, outermost first (a value may carry several) — mirrors
+    /// `MachineState::stripped_meta` in `vm.rs`. Live heap handles, so they
+    /// are scanned and pointer-updated with the other roots, as are the two
+    /// below.
+    pub stripped_meta: Vec<BcValue>,
+    /// `stripped_meta` of each run suspended by a sub-run.
+    pub suspended_metas: Vec<Vec<BcValue>>,
+    /// Metadata stripped by the most recently completed force.
+    pub recovered_meta: Vec<BcValue>,
 }
 
 impl BcMachineState {
@@ -372,7 +378,9 @@ impl BcMachineState {
             bif_arg_pool: Vec::new(),
             allocs: 0,
             diagnostics: Vec::new(),
-            stripped_meta: None,
+            stripped_meta: Vec::new(),
+            suspended_metas: Vec::new(),
+            recovered_meta: Vec::new(),
         }
     }
 
@@ -647,9 +655,10 @@ fn enter_whnf_subrun(state: &mut BcMachineState, value: BcValue) -> bool {
     let saved_terminated = state.terminated;
     state.terminated = false;
     state.yielded_io = false;
-    // Any metadata recorded by an earlier force belongs to an earlier value;
+    // Metadata recorded so far belongs to the value of the suspended run;
     // `take_stripped_meta` reports on *this* sub-run only.
-    state.stripped_meta = None;
+    let saved_metas = std::mem::take(&mut state.stripped_meta);
+    state.suspended_metas.push(saved_metas);
     saved_terminated
 }
 
@@ -679,6 +688,8 @@ fn exit_whnf_subrun(
         .suspended_stacks
         .pop()
         .expect("bytecode whnf suspended-stack underflow");
+    let saved_metas = state.suspended_metas.pop().unwrap_or_default();
+    state.recovered_meta = std::mem::replace(&mut state.stripped_meta, saved_metas);
 
     let sub_yielded = state.yielded_io;
     let result = std::mem::replace(&mut state.current, saved_current);
@@ -743,7 +754,12 @@ impl GcScannable for BcMachineState {
             }
         }
         // Metadata held for `take_stripped_meta` is live until collected.
-        if let Some(meta) = &self.stripped_meta {
+        for meta in self
+            .stripped_meta
+            .iter()
+            .chain(self.suspended_metas.iter().flatten())
+            .chain(&self.recovered_meta)
+        {
             out.push(ScanPtr::new(scope, meta));
         }
     }
@@ -770,7 +786,12 @@ impl GcScannable for BcMachineState {
                 cont.scan_and_update(heap);
             }
         }
-        if let Some(meta) = &mut self.stripped_meta {
+        for meta in self
+            .stripped_meta
+            .iter_mut()
+            .chain(self.suspended_metas.iter_mut().flatten())
+            .chain(&mut self.recovered_meta)
+        {
             meta.scan_and_update(heap);
         }
         for frame in &mut self.bif_frames {
@@ -1795,13 +1816,8 @@ fn return_meta(
         // no eu-bc34x push-ordering concern — `enter_meta_body` still forces
         // `body_ref` properly (black-hole + `Update`) rather than the bare
         // `resolve_ref` this branch used before that fix.
-        state.stripped_meta = Some(resolve_ref(
-            view,
-            &state.constants,
-            env,
-            state.globals,
-            meta_ref,
-        )?);
+        let meta = resolve_ref(view, &state.constants, env, state.globals, meta_ref)?;
+        state.stripped_meta.push(meta);
         enter_meta_body(state, view, prog, decoded, env, body_ref)?;
         return Ok(());
     };
@@ -4776,7 +4792,7 @@ impl IntrinsicMachine for BcBifContext<'_, '_> {
             // `take_stripped_meta` (`run_to_whnf` clears via
             // `enter_whnf_subrun`).
             v @ BcValue::Native(_) => {
-                self.state.stripped_meta = None;
+                self.state.recovered_meta.clear();
                 Ok(AbiClosure::Byte(v))
             }
             v => Ok(AbiClosure::Byte(self.run_to_whnf(v)?)),
@@ -4804,8 +4820,12 @@ impl IntrinsicMachine for BcBifContext<'_, '_> {
         self.state.stash.truncate(len);
     }
 
-    fn take_stripped_meta(&mut self) -> Option<AbiClosure> {
-        self.state.stripped_meta.take().map(AbiClosure::Byte)
+    fn take_stripped_meta(&mut self) -> Vec<AbiClosure> {
+        self.state
+            .recovered_meta
+            .drain(..)
+            .map(AbiClosure::Byte)
+            .collect()
     }
 
     // ── Data construction over templates (spec §5.5) ────────────────
diff --git a/src/eval/machine/intrinsic.rs b/src/eval/machine/intrinsic.rs
index af103ee..2733ad6 100644
--- a/src/eval/machine/intrinsic.rs
+++ b/src/eval/machine/intrinsic.rs
@@ -307,7 +307,7 @@ pub trait IntrinsicMachine {
     /// Drop every handle from `len` upwards, releasing the frame.
     fn gc_root_truncate(&mut self, len: usize);
 
-    /// Metadata discarded by the most recent [`Self::force`], if any.
+    /// Metadata discarded by the most recent [`Self::force`], outermost first.
     ///
     /// A `Meta` value reaching the top of a sub-evaluation with nothing to
     /// consume it is *stripped*: the machine continues with the body and the
@@ -319,7 +319,7 @@ pub trait IntrinsicMachine {
     /// The machine records the stripped metadata here and clears it at the
     /// start of each `force`, so an intrinsic can recover it immediately
     /// afterwards. Taking it clears it.
-    fn take_stripped_meta(&mut self) -> Option<AbiClosure>;
+    fn take_stripped_meta(&mut self) -> Vec<AbiClosure>;
 
     /// Whether the machine is running in test mode.
     ///
diff --git a/src/eval/stg/parallel/serialise.rs b/src/eval/stg/parallel/serialise.rs
index 7d1eafd..0793cb4 100644
--- a/src/eval/stg/parallel/serialise.rs
+++ b/src/eval/stg/parallel/serialise.rs
@@ -200,9 +200,9 @@ fn force_slot_and_serialise(
     let handle = machine.gc_root_get(slot);
     let forced = machine.force(handle)?;
     machine.gc_root_set(slot, forced);
-    if let Some(meta) = machine.take_stripped_meta() {
-        out.push(TAG_META);
-        // The metadata is itself an unforced value, and may in principle carry
+    let metas = machine.take_stripped_meta();
+    if !metas.is_empty() {
+        // Each is itself an unforced value, and may in principle carry
         // metadata of its own, so it goes through the same path. A prelude
         // global's OWN documentation (e.g. `null: `` ` {doc: ..., type:
         // s"null"} `` __NULL`) is Meta-wrapped exactly like user
@@ -214,8 +214,15 @@ fn force_slot_and_serialise(
         // as a genuine global forced here — an implementation detail the
         // boundary contract must not be sensitive to (eu-pkgoo).
         with_roots(machine, |machine| {
-            let meta_slot = machine.gc_root_push(meta);
-            force_slot_and_serialise(machine, view, meta_slot, combinator, out)
+            let slots: Vec<usize> = metas
+                .into_iter()
+                .map(|meta| machine.gc_root_push(meta))
+                .collect();
+            for meta_slot in slots {
+                out.push(TAG_META);
+                force_slot_and_serialise(machine, view, meta_slot, combinator, out)?;
+            }
+            Ok(())
         })?;
     }
     serialise_forced(machine, view, slot, combinator, out)
-- 
2.43.0


From ba81e5ca46557bf2abb5072b90397216edd2b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:28 +0000
Subject: [PATCH 55/58] fix: the fields of a time make that time, and named
 zones observe summer time

---
 src/eval/stg/time.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index 97d6882..d5ba349 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -77,6 +77,25 @@ fn offset_from_tz_str(smid: Smid, tz_str: &str) -> Result<FixedOffset, Execution
     Err(ExecutionError::BadTimeZone(smid, tz_str.to_string()))
 }
 
+/// Split a number of seconds, whole or fractional (as ZDT.FIELDS gives
+/// it), into whole seconds and nanoseconds
+///
+/// As ZDT.FIELDS gives them, the seconds of a leap second are 60 or
+/// more, which chrono represents by nanoseconds beyond a second.
+fn whole_and_nanos(sec: &Number) -> Option<(u64, u32)> {
+    if let Some(whole) = sec.as_u64() {
+        return Some((whole, 0));
+    }
+    let seconds = sec.as_f64().filter(|s| (0.0..61.0).contains(s))?;
+    let nanos = (seconds * 1e9).round() as u64;
+    if seconds < 60.0 {
+        let nanos = nanos.min(59_999_999_999);
+        Some((nanos / 1_000_000_000, (nanos % 1_000_000_000) as u32))
+    } else {
+        Some((59, (nanos - 59_000_000_000) as u32))
+    }
+}
+
 /// ZDT(y, m, d, h, M, s, Z) - create a zoned date time
 pub struct Zdt;
 
@@ -116,13 +135,13 @@ impl StgIntrinsic for Zdt {
             )
         };
 
-        if let (Some(yy), Some(mm), Some(dd), Some(hours), Some(mins), Some(secs)) = (
+        if let (Some(yy), Some(mm), Some(dd), Some(hours), Some(mins), Some((secs, nanos))) = (
             y.as_i64(),
             m.as_u64(),
             d.as_u64(),
             hour.as_u64(),
             min.as_u64(),
-            sec.as_u64(),
+            whole_and_nanos(&sec),
         ) {
             let date = NaiveDate::from_ymd_opt(
                 yy.try_into().ok().ok_or_else(err)?,
@@ -131,15 +150,26 @@ impl StgIntrinsic for Zdt {
             )
             .ok_or_else(err)?;
 
-            let time = NaiveTime::from_hms_opt(
+            let time = NaiveTime::from_hms_nano_opt(
                 hours.try_into().ok().ok_or_else(err)?,
                 mins.try_into().ok().ok_or_else(err)?,
                 secs.try_into().ok().ok_or_else(err)?,
+                nanos,
             )
             .ok_or_else(err)?;
 
             let datetime = NaiveDateTime::new(date, time);
-            let offset = offset_from_tz_str(smid, &tz)?;
+            // the offset of a named zone depends on the date: a time
+            // which occurs twice is the earlier, one which is skipped
+            // does not exist
+            let offset = match tz.parse::<Tz>() {
+                Ok(zone) => zone
+                    .offset_from_local_datetime(&datetime)
+                    .earliest()
+                    .ok_or_else(err)?
+                    .fix(),
+                Err(_) => offset_from_tz_str(smid, &tz)?,
+            };
             if let LocalResult::Single(zdt) = offset.from_local_datetime(&datetime) {
                 machine_return_zdt(machine, view, zdt)
             } else {
-- 
2.43.0


From eec1064d637b1d258af951dc3314ffcb630252b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:28 +0000
Subject: [PATCH 56/58] fix: an epoch time out of range is reported rather than
 crashing

---
 src/eval/stg/time.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index d5ba349..ffb320e 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -279,12 +279,11 @@ impl StgIntrinsic for ZdtFromEpoch {
     ) -> Result<(), ExecutionError> {
         let unix = num_arg(machine, view, &args[0])?;
         if let Some(ts) = unix.as_i64() {
-            let zdt = DateTime::from(
-                Utc.timestamp_opt(ts, 0)
-                    .single()
-                    .expect("timestamp with zero nanoseconds is always valid"),
-            );
-            machine_return_zdt(machine, view, zdt)
+            let utc = Utc
+                .timestamp_opt(ts, 0)
+                .single()
+                .ok_or_else(|| ExecutionError::BadTimestamp(machine.annotation(), unix))?;
+            machine_return_zdt(machine, view, DateTime::from(utc))
         } else {
             Err(ExecutionError::BadTimestamp(machine.annotation(), unix))
         }
-- 
2.43.0


From 810396d777a659d7bbea176518123c1082ff9067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:28 +0000
Subject: [PATCH 57/58] fix: a formatted time of any year can be parsed

---
 src/eval/stg/time.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index ffb320e..a553ee0 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -321,6 +321,14 @@ fn zdt_from_str(repr: &str) -> Option<DateTime<FixedOffset>> {
 
     // first try parsing a full datetime
     DateTime::parse_from_rfc3339(repr)
+        .or_else(|e| {
+            // RFC 3339 has four digit years, others are signed
+            if repr.starts_with(['+', '-']) {
+                repr.parse::<DateTime<FixedOffset>>()
+            } else {
+                Err(e)
+            }
+        })
         .or_else(|_| DateTime::parse_from_str(repr, "%Y%m%dT%H%M%S"))
         .or_else(|_| {
             repr.parse::<NaiveDateTime>()
-- 
2.43.0


From 3a65b95a9490a3f03f927a104b2bf3eb4979a1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:21 +0000
Subject: [PATCH 58/58] fix: sets and vecs keep large integers exactly

Elements were held as floats, so 9007199254740993 became 9007199254740992.0
and distinct large integers were taken for one element.
---
 src/eval/memory/set.rs  | 28 ++++++++++++++++++++++++----
 src/eval/stg/emit.rs    |  9 ++++-----
 src/eval/stg/support.rs |  5 +++--
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/eval/memory/set.rs b/src/eval/memory/set.rs
index 3d0a824..8a0fc65 100644
--- a/src/eval/memory/set.rs
+++ b/src/eval/memory/set.rs
@@ -19,6 +19,8 @@ use super::symbol::{SymbolId, SymbolPool};
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub enum Primitive {
     Num(OrderedFloat<f64>),
+    /// An integer too large for a float to hold exactly
+    BigInt(i128),
     Str(String),
     Sym(SymbolId),
 }
@@ -28,6 +30,7 @@ impl Hash for Primitive {
         std::mem::discriminant(self).hash(state);
         match self {
             Primitive::Num(n) => n.hash(state),
+            Primitive::BigInt(n) => n.hash(state),
             Primitive::Str(s) => s.hash(state),
             Primitive::Sym(id) => id.hash(state),
         }
@@ -35,20 +38,32 @@ impl Hash for Primitive {
 }
 
 impl Primitive {
-    /// Convert a `serde_json::Number` to a set-safe `OrderedFloat<f64>`.
+    /// Convert a `serde_json::Number` to a set-safe primitive, a float unless
+    /// that would change it.
     pub fn from_number(n: &Number) -> Self {
-        Primitive::Num(OrderedFloat(n.as_f64().unwrap_or(0.0)))
+        let float = n.as_f64().unwrap_or(0.0);
+        match n.as_i128() {
+            Some(int) if float as i128 != int => Primitive::BigInt(int),
+            _ => Primitive::Num(OrderedFloat(float)),
+        }
     }
 
     /// Convert back to a `serde_json::Number` for rendering.
     pub fn to_number(&self) -> Option<Number> {
         match self {
             Primitive::Num(n) => Number::from_f64(n.into_inner()),
+            Primitive::BigInt(n) => Number::from_i128(*n),
             _ => None,
         }
     }
 }
 
+/// Order a float against an integer that no float equals.
+fn cmp_float_int(float: f64, int: i128) -> std::cmp::Ordering {
+    // (the cast saturates, which keeps the order beyond the integer range)
+    (float as i128).cmp(&int)
+}
+
 impl PartialOrd for Primitive {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         Some(self.cmp(other))
@@ -60,11 +75,16 @@ impl Ord for Primitive {
         use std::cmp::Ordering;
         match (self, other) {
             (Primitive::Num(a), Primitive::Num(b)) => a.cmp(b),
+            (Primitive::BigInt(a), Primitive::BigInt(b)) => a.cmp(b),
+            (Primitive::Num(a), Primitive::BigInt(b)) => cmp_float_int(a.into_inner(), *b),
+            (Primitive::BigInt(a), Primitive::Num(b)) => {
+                cmp_float_int(b.into_inner(), *a).reverse()
+            }
             (Primitive::Str(a), Primitive::Str(b)) => a.cmp(b),
             (Primitive::Sym(a), Primitive::Sym(b)) => a.cmp(b),
             // Numbers before strings before symbols
-            (Primitive::Num(_), _) => Ordering::Less,
-            (_, Primitive::Num(_)) => Ordering::Greater,
+            (Primitive::Num(_) | Primitive::BigInt(_), _) => Ordering::Less,
+            (_, Primitive::Num(_) | Primitive::BigInt(_)) => Ordering::Greater,
             (Primitive::Str(_), Primitive::Sym(_)) => Ordering::Less,
             (Primitive::Sym(_), Primitive::Str(_)) => Ordering::Greater,
         }
diff --git a/src/eval/stg/emit.rs b/src/eval/stg/emit.rs
index 86a9a41..6aee444 100644
--- a/src/eval/stg/emit.rs
+++ b/src/eval/stg/emit.rs
@@ -90,11 +90,10 @@ fn set_primitive_to_render_primitive(
     machine: &dyn IntrinsicMachine,
 ) -> Primitive {
     match prim {
-        SetPrimitive::Num(n) => {
-            let num = serde_json::Number::from_f64(n.into_inner())
-                .unwrap_or_else(|| serde_json::Number::from(0));
-            Primitive::Num(num)
-        }
+        SetPrimitive::Num(_) | SetPrimitive::BigInt(_) => Primitive::Num(
+            prim.to_number()
+                .unwrap_or_else(|| serde_json::Number::from(0)),
+        ),
         SetPrimitive::Str(s) => Primitive::Str(s.clone()),
         SetPrimitive::Sym(id) => Primitive::Sym(machine.symbol_pool().resolve(*id).to_string()),
     }
diff --git a/src/eval/stg/support.rs b/src/eval/stg/support.rs
index 3a68695..8e476f9 100644
--- a/src/eval/stg/support.rs
+++ b/src/eval/stg/support.rs
@@ -497,8 +497,9 @@ pub fn set_primitive_to_native(
 ) -> Result<Native, ExecutionError> {
     use crate::eval::memory::set::Primitive as SetPrim;
     match prim {
-        SetPrim::Num(n) => {
-            let num = serde_json::Number::from_f64(n.into_inner())
+        SetPrim::Num(_) | SetPrim::BigInt(_) => {
+            let num = prim
+                .to_number()
                 .unwrap_or_else(|| serde_json::Number::from(0));
             Ok(Native::Num(num))
         }
-- 
2.43.0

