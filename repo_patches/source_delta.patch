From bbd48e2271bae9f49e1e537e04e9097110e2db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:55 +0000
Subject: [PATCH 01/46] fix: accept character patterns when building a
 pattern's type scope

---
 src/pattern.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pattern.rs b/src/pattern.rs
index 4361339..9070ef9 100644
--- a/src/pattern.rs
+++ b/src/pattern.rs
@@ -65,6 +65,7 @@ impl Pattern {
             }
             (Pattern::Wildcard, _) => {}
             (Pattern::Bool(..), ValueType::Base(BaseType::Bool)) => {}
+            (Pattern::Char(..), ValueType::Base(BaseType::Char)) => {}
             (Pattern::U8(..), &ValueType::U8) => {}
             (Pattern::U16(..), &ValueType::U16) => {}
             (Pattern::U32(..), &ValueType::U32) => {}
@@ -115,6 +116,7 @@ impl Pattern {
             }
             (Pattern::Wildcard, _) => {}
             (Pattern::Bool(..), ValueTypeExt::Base(BaseType::Bool)) => {}
+            (Pattern::Char(..), ValueTypeExt::Base(BaseType::Char)) => {}
             (Pattern::U8(..), ValueTypeExt::Base(BaseType::U8)) => {}
             (Pattern::U16(..), ValueTypeExt::Base(BaseType::U16)) => {}
             (Pattern::U32(..), ValueTypeExt::Base(BaseType::U32)) => {}
-- 
2.43.0


From cfc3f660968041b702ba18c2d8f98485a203329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:55 +0000
Subject: [PATCH 02/46] fix: predict each step of a bounded repetition at the
 current position

---
 src/decoder.rs     | 9 ++++++---
 src/loc_decoder.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 113093c..ec8c848 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1389,9 +1389,9 @@ impl Decoder {
                 let max = max.eval_value(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree.matches(input).ok_or(
+                    if reps_left_tree.matches(*input).ok_or(
                         DecodeErrorKind::NoValidBranch {
                             offset: input.offset,
                         }
@@ -1400,7 +1400,10 @@ impl Decoder {
                         || v.len() == max
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .with_trace(v.len()));
                         }
                         break;
                     }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 099dec3..ef1f550 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1571,10 +1571,10 @@ impl Decoder {
                 let max = max.eval_value_with_loc(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
                     if reps_left_tree
-                        .matches(input)
+                        .matches(*input)
                         .ok_or(DecodeErrorKind::NoValidBranch {
                             offset: input.offset,
                         })?
@@ -1582,7 +1582,10 @@ impl Decoder {
                         || v.len() == max
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .into());
                         }
                         break;
                     }
-- 
2.43.0


From 65488cf9ab1d4da41f19aa09e5f274eda9b73bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:21 +0000
Subject: [PATCH 03/46] fix: see through provenance wrappers in nested
 patterns, byte lists and byte-order assembly

A nested pattern failed to match a value wrapped by Map or by a union branch,
and byte lists/tuples with mapped elements panicked. A bounded repetition that
has reached its maximum no longer consults the lookahead tree.
---
 src/decoder.rs       | 18 ++++++------
 src/decoder/value.rs | 46 +++++++++++++++++-------------
 src/loc_decoder.rs   | 68 ++++++++++++++++++++++++++------------------
 3 files changed, 76 insertions(+), 56 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index ec8c848..6197264 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1390,14 +1390,14 @@ impl Decoder {
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
                     let (v, input) = res.as_ref();
-                    // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree.matches(*input).ok_or(
-                        DecodeErrorKind::NoValidBranch {
-                            offset: input.offset,
-                        }
-                        .with_trace(v.len()),
-                    )? == 0
-                        || v.len() == max
+                    // NOTE - once `max` is reached, what follows is not ours to predict
+                    if v.len() == max
+                        || reps_left_tree.matches(*input).ok_or(
+                            DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .with_trace(v.len()),
+                        )? == 0
                     {
                         if v.len() < min {
                             return Err(DecodeErrorKind::NoValidBranch {
@@ -1760,7 +1760,7 @@ fn read_base(
 }
 
 fn value_to_vec_usize(v: &Value) -> Vec<usize> {
-    let vs = match v {
+    let vs = match v.coerce_mapped_value() {
         Value::Seq(vs) => vs,
         _ => panic!("expected Seq"),
     };
diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 3d60dc8..8782114 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -178,34 +178,37 @@ impl Value {
         scope: &mut MultiScope<'a>,
         pattern: &Pattern,
     ) -> bool {
+        if let Pattern::Binding(name) = pattern {
+            scope.push(name.clone(), self);
+            return true;
+        }
+        // NOTE - how a (sub-)value was produced has no bearing on whether it matches
+        let this = self.coerce_nominal_value();
         match pattern {
-            Pattern::Binding(name) => {
-                scope.push(name.clone(), self);
-                true
-            }
+            Pattern::Binding(..) => unreachable!("handled above"),
             Pattern::Wildcard => true,
-            Pattern::Bool(b0) => matches!(self, Value::Bool(b1) if b0 == b1),
-            Pattern::U8(i0) => match self {
+            Pattern::Bool(b0) => matches!(this, Value::Bool(b1) if b0 == b1),
+            Pattern::U8(i0) => match this {
                 Value::U8(i1) if i0 == i1 => true,
                 Value::Numeric(n) => n.matches_u8(*i0),
                 _ => false,
             },
-            Pattern::U16(i0) => match self {
+            Pattern::U16(i0) => match this {
                 Value::U16(i1) if i0 == i1 => true,
                 Value::Numeric(n) => n.matches_u16(*i0),
                 _ => false,
             },
-            Pattern::U32(i0) => match self {
+            Pattern::U32(i0) => match this {
                 Value::U32(i1) if i0 == i1 => true,
                 Value::Numeric(n) => n.matches_u32(*i0),
                 _ => false,
             },
-            Pattern::U64(i0) => match self {
+            Pattern::U64(i0) => match this {
                 Value::U64(i1) if i0 == i1 => true,
                 Value::Numeric(n) => n.matches_u64(*i0),
                 _ => false,
             },
-            Pattern::Int(bounds) => match self {
+            Pattern::Int(bounds) => match this {
                 Value::U8(n) => bounds.contains(usize::from(*n)),
                 Value::U16(n) => bounds.contains(usize::from(*n)),
                 Value::U32(n) => bounds.contains(usize::try_from(*n).unwrap()),
@@ -214,7 +217,7 @@ impl Value {
                 Value::Numeric(n) => n.matches_int_range(*bounds),
                 _ => false,
             },
-            Pattern::ZConst(z) => match self {
+            Pattern::ZConst(z) => match this {
                 Value::U8(n) => z == &BigInt::from(*n),
                 Value::U16(n) => z == &BigInt::from(*n),
                 Value::U32(n) => z == &BigInt::from(*n),
@@ -223,7 +226,7 @@ impl Value {
                 Value::Numeric(n) => n.eq_num(z),
                 _ => false,
             },
-            Pattern::ZRange(range) => match self {
+            Pattern::ZRange(range) => match this {
                 Value::U8(n) => range.contains(&BigInt::from(*n)),
                 Value::U16(n) => range.contains(&BigInt::from(*n)),
                 Value::U32(n) => range.contains(&BigInt::from(*n)),
@@ -232,8 +235,8 @@ impl Value {
                 Value::Numeric(n) => range.contains(n.as_raw_value()),
                 _ => false,
             },
-            Pattern::Char(c0) => matches!(self, Value::Char(c1) if c0 == c1),
-            Pattern::Tuple(ps) => match self {
+            Pattern::Char(c0) => matches!(this, Value::Char(c1) if c0 == c1),
+            Pattern::Tuple(ps) => match this {
                 Value::Tuple(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
                         if !v.matches_inner(scope, p) {
@@ -244,7 +247,7 @@ impl Value {
                 }
                 _ => false,
             },
-            Pattern::Seq(ps) => match self {
+            Pattern::Seq(ps) => match this {
                 Value::Seq(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
                         if !v.matches_inner(scope, p) {
@@ -255,12 +258,12 @@ impl Value {
                 }
                 _ => false,
             },
-            Pattern::Variant(label0, p) => match self {
+            Pattern::Variant(label0, p) => match this {
                 Value::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
                 _ => false,
             },
-            Pattern::Option(None) => matches!(self, Value::Option(None)),
-            Pattern::Option(Some(p)) => match self {
+            Pattern::Option(None) => matches!(this, Value::Option(None)),
+            Pattern::Option(Some(p)) => match this {
                 Value::Option(Some(v)) => v.matches_inner(scope, p),
                 _ => false,
             },
@@ -368,7 +371,7 @@ impl Value {
 
     /// Unwraps `Value::U8` and returns the contained value, or panics if the value is not `Value::U8`.
     pub(crate) fn get_as_u8(&self) -> u8 {
-        match self {
+        match self.coerce_mapped_value() {
             Value::U8(n) => *n,
             Value::U16(..) | Value::U32(..) | Value::U64(..) | Value::Usize(..) => panic!(
                 "value is numeric but not u8 (this may be a soft error, or even success, in future)"
@@ -380,7 +383,10 @@ impl Value {
 
     pub(crate) fn unwrap_tuple(self) -> Vec<Value> {
         match self {
-            Value::Tuple(values) => values,
+            Value::Tuple(values) => values
+                .into_iter()
+                .map(Value::extract_mapped_value)
+                .collect(),
             _ => panic!("value is not a tuple"),
         }
     }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index ef1f550..d5c0828 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -364,37 +364,40 @@ impl ParsedValue {
     }
 
     pub fn matches_inner(&self, scope: &mut LocMultiScope<'_>, pattern: &Pattern) -> bool {
+        if let Pattern::Binding(name) = pattern {
+            scope.push(name.clone(), self.clone());
+            return true;
+        }
+        // NOTE - how a (sub-)value was produced has no bearing on whether it matches
+        let this = self.coerce_nominal_value();
         match pattern {
-            Pattern::Binding(name) => {
-                scope.push(name.clone(), self.clone());
-                true
-            }
+            Pattern::Binding(..) => unreachable!("handled above"),
             Pattern::Wildcard => true,
-            Pattern::Bool(b0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::Bool(b0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::Bool(b1),
                     ..
                 }) if b0 == b1),
-            Pattern::U8(i0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::U8(i0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::U8(i1),
                     ..
                 }) if i0 == i1),
-            Pattern::U16(i0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::U16(i0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::U16(i1),
                     ..
                 }) if i0 == i1),
-            Pattern::U32(i0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::U32(i0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::U32(i1),
                     ..
                 }) if i0 == i1),
-            Pattern::U64(i0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::U64(i0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::U64(i1),
                     ..
                 }) if i0 == i1),
-            Pattern::Char(c0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::Char(c0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::Char(c1),
                     ..
                 }) if c0 == c1),
-            Pattern::Tuple(ps) => match self {
+            Pattern::Tuple(ps) => match this {
                 ParsedValue::Tuple(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
                         if !v.matches_inner(scope, p) {
@@ -405,7 +408,7 @@ impl ParsedValue {
                 }
                 _ => false,
             },
-            Pattern::Seq(ps) => match self {
+            Pattern::Seq(ps) => match this {
                 ParsedValue::Seq(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
                         if !v.matches_inner(scope, p) {
@@ -416,16 +419,16 @@ impl ParsedValue {
                 }
                 _ => false,
             },
-            Pattern::Variant(label0, p) => match self {
+            Pattern::Variant(label0, p) => match this {
                 ParsedValue::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
                 _ => false,
             },
-            Pattern::Option(None) => matches!(self, ParsedValue::Option(None)),
-            Pattern::Option(Some(p)) => match self {
+            Pattern::Option(None) => matches!(this, ParsedValue::Option(None)),
+            Pattern::Option(Some(p)) => match this {
                 ParsedValue::Option(Some(v)) => v.matches_inner(scope, p),
                 _ => false,
             },
-            Pattern::Int(bounds) => match self {
+            Pattern::Int(bounds) => match this {
                 ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
                     Value::U8(n) => bounds.contains(usize::from(*n)),
                     Value::U16(n) => bounds.contains(usize::from(*n)),
@@ -436,7 +439,7 @@ impl ParsedValue {
                 },
                 _ => false,
             },
-            Pattern::ZConst(z) => match self {
+            Pattern::ZConst(z) => match this {
                 ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
                     Value::U8(n) => z == &BigInt::from(*n),
                     Value::U16(n) => z == &BigInt::from(*n),
@@ -448,7 +451,7 @@ impl ParsedValue {
                 },
                 _ => false,
             },
-            Pattern::ZRange(bounds) => match self {
+            Pattern::ZRange(bounds) => match this {
                 ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
                     Value::U8(n) => bounds.contains(&BigInt::from(*n)),
                     Value::U16(n) => bounds.contains(&BigInt::from(*n)),
@@ -479,6 +482,17 @@ impl ParsedValue {
         ParsedValue::Record(Parsed { loc, inner: fields })
     }
 
+    /// Counterpart to [`Value::coerce_nominal_value`]
+    pub(crate) fn coerce_nominal_value(&self) -> &Self {
+        match self {
+            ParsedValue::Permit(Ok(v)) => v.coerce_nominal_value(),
+            ParsedValue::Permit(Err(Some(v))) => v.coerce_nominal_value(),
+            ParsedValue::Mapped(_orig, v) => v.coerce_nominal_value(),
+            ParsedValue::Branch(_n, v) => v.coerce_nominal_value(),
+            v => v,
+        }
+    }
+
     pub(crate) fn coerce_mapped_value(&self) -> &Self {
         match self {
             ParsedValue::Mapped(_orig, v) => v.coerce_mapped_value(),
@@ -579,7 +593,7 @@ impl ParsedValue {
 
     fn matches<'a>(&self, scope: &'a LocScope<'a>, pattern: &Pattern) -> Option<LocMultiScope<'a>> {
         let mut pattern_scope = LocMultiScope::new(scope);
-        self.coerce_mapped_value()
+        self.coerce_nominal_value()
             .matches_inner(&mut pattern_scope, pattern)
             .then_some(pattern_scope)
     }
@@ -1572,14 +1586,14 @@ impl Decoder {
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
                     let (v, input) = res.as_ref();
-                    // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree
-                        .matches(*input)
-                        .ok_or(DecodeErrorKind::NoValidBranch {
-                            offset: input.offset,
-                        })?
-                        == 0
-                        || v.len() == max
+                    // NOTE - once `max` is reached, what follows is not ours to predict
+                    if v.len() == max
+                        || reps_left_tree
+                            .matches(*input)
+                            .ok_or(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            })?
+                            == 0
                     {
                         if v.len() < min {
                             return Err(DecodeErrorKind::NoValidBranch {
-- 
2.43.0


From 5157d2bd393f08487bff5f7bb3899cbb55914f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:33 +0000
Subject: [PATCH 04/46] fix: report the largest member of a byte set and print
 ranges ending at 255

---
 src/byte_set.rs              | 6 +++---
 src/byte_set/pretty_print.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/byte_set.rs b/src/byte_set.rs
index 7c1c47b..7174841 100644
--- a/src/byte_set.rs
+++ b/src/byte_set.rs
@@ -108,13 +108,13 @@ impl ByteSet {
         if let Some(i) = max_set_bit(self.bits[3]) {
             return Some(0xc0 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[2]) {
+        if let Some(i) = max_set_bit(self.bits[2]) {
             return Some(0x80 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[1]) {
+        if let Some(i) = max_set_bit(self.bits[1]) {
             return Some(0x40 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[0]) {
+        if let Some(i) = max_set_bit(self.bits[0]) {
             return Some(i);
         }
         None
diff --git a/src/byte_set/pretty_print.rs b/src/byte_set/pretty_print.rs
index 810b6c0..6246349 100644
--- a/src/byte_set/pretty_print.rs
+++ b/src/byte_set/pretty_print.rs
@@ -143,7 +143,7 @@ impl ByteSet {
         parts.into_iter().for_each(|(rank, mins)| {
             if rank >= THRESHOLD {
                 mins.into_iter().for_each(|lo| {
-                    tokens.push(format!("⟦{lo},{}⟧", lo + rank - 1));
+                    tokens.push(format!("⟦{lo},{}⟧", lo + (rank - 1)));
                 });
             } else {
                 for lo in mins {
-- 
2.43.0


From b046bab02c66fb3e8069ed1aefd400b924168973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:08 +0000
Subject: [PATCH 05/46] fix: interval bounds for bitwise-and, shift-left and
 large operands enclose all results

---
 src/bounds.rs | 41 +++++++++--------------------------------
 1 file changed, 9 insertions(+), 32 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 7d76f80..9a9e3c6 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -277,22 +277,6 @@ impl Bounds {
             max: self.max.map(|n| n.div_ceil(8)),
         }
     }
-
-    /// Finds the pair `(x, m)` that yields the maximal `x & m` for `x` in the bounds of `self`.
-    ///
-    /// May fudge the value of `x` to an out-of-range value to shortcut the computation of `x & m`
-    /// over all in-range values, with the guarantee that the resulting bitwise-and will be no less
-    /// than the true maximum of `y & m` for actually-in-range `y`.
-    fn best_mask(&self, m: usize) -> (usize, usize) {
-        if self.contains(m) {
-            (m, m)
-        } else {
-            match self.max {
-                Some(n) => (mask(n), m),
-                _ => (m, m),
-            }
-        }
-    }
 }
 
 macro_rules! try_from_bounds {
@@ -392,8 +376,9 @@ impl Bounds {
         let max = match (self.max, rhs.max) {
             (Some(m1), Some(m2)) => {
                 let max2 = u32::try_from(m2).ok()?;
-                // REVIEW - there may be edge-cases here where max2 < 64 but m1 overflows, yielding unexpectedly small values
+                // NOTE - no finite upper bound if any significant bit is shifted out
                 m1.checked_shl(max2)
+                    .filter(|_| sig_bits(m1) + m2 <= usize::BITS as usize)
             }
             _ => None,
         };
@@ -455,20 +440,12 @@ impl BitAnd<Bounds> for Bounds {
         Bounds {
             min: (k1 & k2),
             max: match (lo_self.max, lo_rhs.max) {
-                (Some(m1), Some(m2)) => Some(match (lo_self.min == m1, lo_rhs.min == m2) {
-                    (true, true) => blend_bits(k1, k2, m1, m2),
-                    (true, false) => {
-                        // NOTE - the order of x2 and m in blend_bits matters
-                        let (x2, m) = lo_rhs.best_mask(m1);
-                        blend_bits(k1, k2, m, x2)
-                    }
-                    (false, true) => {
-                        // NOTE - the order of x1 and m in blend_bits matters
-                        let (x1, m) = lo_self.best_mask(m2);
-                        blend_bits(k1, k2, x1, m)
-                    }
-                    (false, false) => blend_bits(k1, k2, mask(m1), mask(m2)),
-                }),
+                (Some(m1), Some(m2)) => {
+                    // NOTE - for an inexact range, any combination of the bits below its highest may be attained
+                    let m1 = if lo_self.min == m1 { m1 } else { mask(m1) };
+                    let m2 = if lo_rhs.min == m2 { m2 } else { mask(m2) };
+                    Some(blend_bits(k1, k2, m1, m2))
+                }
                 _ => None,
             },
         }
@@ -484,7 +461,7 @@ fn blend_bits(k1: usize, k2: usize, m1: usize, m2: usize) -> usize {
 
 fn mask(x: usize) -> usize {
     if x != 0 {
-        1_usize.checked_shl(x.ilog2() + 1).unwrap() - 1
+        usize::MAX >> x.leading_zeros()
     } else {
         0
     }
-- 
2.43.0


From 7a590aa1c795053458b2e140bf5ec625f230260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:45 +0000
Subject: [PATCH 06/46] fix: the run-time parser compares bit and byte
 positions, saturates advances and can close an alternation

---
 src/parser/mod.rs    | 14 +++++++++++++-
 src/parser/offset.rs | 28 ++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 36f9f96..9dbcce4 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -106,8 +106,13 @@ impl<'a> Parser<'a> {
         Ok(is_advance)
     }
 
+    /// Advances to the end of the current, possibly slice-limited context, without changing between
+    /// bits-mode and bytes-mode.
     pub fn skip_remainder(&mut self) {
-        let after_skip = self.offset.current_limit();
+        let after_skip = self
+            .offset
+            .get_current_offset()
+            .increment_by(self.offset.rem_local());
         unsafe {
             self.offset.set_offset(after_skip);
         }
@@ -320,6 +325,13 @@ impl<'a> Parser<'a> {
         Ok(())
     }
 
+    /// Closes the latest 'Alts' context after one of its non-final branches was parsed successfully, so that
+    /// a later parse-failure recovers to the next enclosing context instead of this one.
+    pub fn end_alt(&mut self) -> Result<(), ParseError> {
+        self.offset.close_parallel()?;
+        Ok(())
+    }
+
     /// Returns the number of bytes that remain in the current, possibly slice-limited context.
     ///
     /// The return value will be `0` if and only if `self.read_byte` will return `Err(ParseError::Overrun(...))`.
diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 2d10ba7..10407ff 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -70,13 +70,14 @@ impl ByteOffset {
 
     pub(crate) fn increment_by(&self, delta: usize) -> Self {
         match *self {
-            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes + delta),
+            // NOTE - saturating, so that an absurd delta is an overrun instead of wrapping around
+            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes.saturating_add(delta)),
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
             } => Self::Bits {
                 starting_byte,
-                bits_advanced: bits_advanced + delta,
+                bits_advanced: bits_advanced.saturating_add(delta),
             },
         }
     }
@@ -170,8 +171,8 @@ impl PartialOrd for ByteOffset {
         match partial {
             Ordering::Equal => match (o1, o2) {
                 (None, None) => Some(Ordering::Equal),
-                (Some(m1), Some(m2)) => Some(m1.cmp(&m2)),
-                _ => None,
+                // NOTE - across modes, a byte-offset stands for the first bit of that byte
+                (m1, m2) => Some(m1.unwrap_or(0).cmp(&m2.unwrap_or(0))),
             },
             _ => Some(partial),
         }
@@ -285,6 +286,20 @@ impl ViewStack {
         }
         Err(StateError::NoRecovery)
     }
+
+    /// Discards the most recently added [`Lens::Alts`], along with anything above it on the stack,
+    /// without affecting the offset.
+    ///
+    /// Returns `Err(StateError::NoRecovery)` if there is no such `Lens`.
+    pub(crate) fn commit(&mut self) -> Result<(), StateError> {
+        let ix = self
+            .stack
+            .iter()
+            .rposition(|lens| matches!(lens, Lens::Alts { .. }))
+            .ok_or(StateError::NoRecovery)?;
+        self.stack.truncate(ix);
+        Ok(())
+    }
 }
 
 /// Enumeration over the (four) format-combinators that require special handling,
@@ -616,6 +631,11 @@ impl BufferOffset {
         self.view_stack.push_lens(parallel);
     }
 
+    /// Performs a [`ViewStack::commit`] operation on the internal ViewStack, leaving the offset as-is.
+    pub(crate) fn close_parallel(&mut self) -> Result<(), StateError> {
+        self.view_stack.commit()
+    }
+
     /// Performs a [`ViewStack::restore`] operation on the internal ViewStack, replacing
     /// the current offset and ViewStack's values with the return-value of that method call.
     ///
-- 
2.43.0


From 6109ba2711ddbf95f9a6efd9a53d364d630e1b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:45 +0000
Subject: [PATCH 07/46] fix: generated alternatives close their context and
 tolerated failures restore the position

---
 generated/gencode.rs | 21 +++++++++++++++++++++
 src/codegen/mod.rs   | 27 ++++++++++++++++++++++-----
 src/codegen/model.rs |  4 ++++
 3 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 3aac61b..3978d6e 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8614,6 +8614,7 @@ PResult::Ok(main_data::waldo(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8627,6 +8628,7 @@ PResult::Ok(main_data::peano(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8640,6 +8642,7 @@ PResult::Ok(main_data::gif(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8653,6 +8656,7 @@ PResult::Ok(main_data::tgz(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8666,6 +8670,7 @@ PResult::Ok(main_data::gzip(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8679,6 +8684,7 @@ PResult::Ok(main_data::jpeg(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8692,6 +8698,7 @@ PResult::Ok(main_data::mpeg4(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8705,6 +8712,7 @@ PResult::Ok(main_data::png(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8718,6 +8726,7 @@ PResult::Ok(main_data::riff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8731,6 +8740,7 @@ PResult::Ok(main_data::tiff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8744,6 +8754,7 @@ PResult::Ok(main_data::tar(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8757,6 +8768,7 @@ PResult::Ok(main_data::elf(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8770,6 +8782,7 @@ PResult::Ok(main_data::opentype(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8783,6 +8796,7 @@ PResult::Ok(main_data::numbers(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8796,6 +8810,7 @@ PResult::Ok(main_data::rle(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -11296,6 +11311,7 @@ None
 }
 };
 let dsig = {
+_input.start_alt();
 let res = (|| match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1146308935u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
@@ -11313,10 +11329,12 @@ PResult::Ok(None)
 })();
 match res {
 Ok(res) => {
+_input.end_alt()?;
 res
 },
 
 Err(err) => {
+_input.next_alt(true)?;
 log::error!("expect-level value assertion failed: {}", err);
 None
 }
@@ -14276,6 +14294,7 @@ PResult::Ok(text_maybe_gzip::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -24530,6 +24549,7 @@ PResult::Ok(())
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -24961,6 +24981,7 @@ PResult::Ok(png_itxt_text::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 48cfa17..5ea9920 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3472,7 +3472,8 @@ where
                 let mut stmts = Vec::with_capacity(2 * l - 1);
                 let mut last_ctrl = None;
 
-                {
+                // NOTE - a lone alternative has nothing to fall back to
+                if l > 1 {
                     let start_alternation = model::start_alt(ctxt.parser()).into();
                     stmts.push(start_alternation);
                 }
@@ -3481,7 +3482,13 @@ where
                     let n_left = (l - 1) - ix;
                     let on_match = |ret_expr: RustExpr| match n_left {
                         0 => GenBlock::implicit_return(ret_expr),
-                        1.. => GenBlock::explicit_return(ret_expr),
+                        1.. => {
+                            let mut block = GenBlock::explicit_return(ret_expr);
+                            block.prepend_stmt(GenStmt::Embed(RustStmt::Expr(model::try_end_alt(
+                                ctxt.parser(),
+                            ))));
+                            block
+                        }
                     };
                     let on_err = match n_left {
                         0 => GenBlock::implicit_return(RustExpr::ResultErr(Box::new(
@@ -3609,13 +3616,22 @@ impl ToAst for DerivedLogic<GTExpr> {
             DerivedLogic::Permit(inner, expr) => {
                 let rhs = inner.to_ast(ctxt).abstracted_try();
                 let bind_res = GenStmt::assign(model::PERMIT_BIND, rhs);
-                let if_ok = GenBlock::simple_expr(RustExpr::local(model::PERMIT_BIND));
+                let mut if_ok = GenBlock::simple_expr(RustExpr::local(model::PERMIT_BIND));
+                if_ok.prepend_stmt(GenStmt::Embed(RustStmt::Expr(model::try_end_alt(
+                    ctxt.parser(),
+                ))));
                 let if_err = {
                     let (stmts, expr) = model::yield_value_with_error(
                         (&**expr).clone(),
                         RustExpr::local(model::PERMIT_ERR),
                     );
-                    GenBlock::lift_block(stmts, expr)
+                    let mut block = GenBlock::lift_block(stmts, expr);
+                    // NOTE - the default value stands in for the whole of the failed parse
+                    block.prepend_stmt(GenStmt::Embed(RustStmt::Expr(model::try_next_alt(
+                        ctxt.parser(),
+                        true,
+                    ))));
+                    block
                 };
                 let ctrl = GenExpr::Control(Box::new(RustControl::Match(
                     Box::new(RustExpr::local(model::PERMIT_BIND)),
@@ -3627,7 +3643,8 @@ impl ToAst for DerivedLogic<GTExpr> {
                         .to_vec(),
                     ),
                 )));
-                let block = GenBlock::from_parts(vec![bind_res], Some(ctrl));
+                let start_alternation = model::start_alt(ctxt.parser()).into();
+                let block = GenBlock::from_parts(vec![start_alternation, bind_res], Some(ctrl));
                 block
             }
             #[cfg(feature = "format_enforce")]
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index aadbed2..5633b39 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -319,6 +319,10 @@ pub fn try_next_alt(parser: RustExpr, next_is_final: bool) -> RustExpr {
     try_call!(parser, next_alt, RustExpr::bool_lit(next_is_final))
 }
 
+pub fn try_end_alt(parser: RustExpr) -> RustExpr {
+    try_call!(parser, end_alt)
+}
+
 // !SECTION
 
 // SECTION - boilerplate patterns based on incidental implementation details of codegen process
-- 
2.43.0


From cbb1a73649784d788a11ed5d074510951f8b78da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 08/46] fix: strided arrays, iterator lengths and oversized
 requests in the binary reading library

---
 smallsorts/src/binary/read.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 2e28c02..bd657e7 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -272,7 +272,7 @@ impl<'a> ReadScope<'a> {
     }
 
     pub fn offset(&self, offset: usize) -> ReadScope<'a> {
-        let base = self.base + offset;
+        let base = self.base.saturating_add(offset);
         let data = self.data.get(offset..).unwrap_or(&[]);
         ReadScope { base, data }
     }
@@ -281,7 +281,7 @@ impl<'a> ReadScope<'a> {
         if offset < self.data.len() || length == 0 {
             let data = self.data.get(offset..).unwrap_or(&[]);
             if length <= data.len() {
-                let base = self.base + offset;
+                let base = self.base.saturating_add(offset);
                 let data = &data[0..length];
                 Ok(ReadScope { base, data })
             } else {
@@ -537,7 +537,7 @@ impl<'a> ReadCtxt<'a> {
         &mut self,
         length: usize,
     ) -> Result<ReadArray<'a, T>, ParseError> {
-        let scope = self.read_scope(length * T::SIZE)?;
+        let scope = self.read_scope(length.checked_mul(T::SIZE).ok_or(ReadEof {})?)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -555,7 +555,7 @@ impl<'a> ReadCtxt<'a> {
         if T::SIZE > stride {
             return Err(ParseError::BadValue);
         }
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.checked_mul(stride).ok_or(ReadEof {})?)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -592,7 +592,7 @@ impl<'a> ReadCtxt<'a> {
         args: T::Args<'a>,
     ) -> Result<ReadArray<'a, T>, ParseError> {
         let stride = T::size(args);
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.checked_mul(stride).ok_or(ReadEof {})?)?;
         Ok(ReadArray {
             scope,
             length,
@@ -658,7 +658,7 @@ impl<'a, T: ReadFixedSizeDep> ReadArray<'a, T> {
     pub fn read_item(&self, index: usize) -> Result<T::HostType<'a>, ParseError> {
         if index < self.length {
             let size = T::size(self.args);
-            let offset = index * size;
+            let offset = index * self.stride;
             let scope = self.scope.offset_length(offset, size).unwrap();
             let mut ctxt = scope.ctxt();
             T::read_dep(&mut ctxt, self.args)
@@ -814,7 +814,7 @@ impl<'a, 'b, T: ReadUnchecked> Iterator for ReadArrayIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.scope.data().len() / self.stride;
+        let remaining = self.scope.data().len() / self.stride - self.index;
         (remaining, Some(remaining))
     }
 }
-- 
2.43.0


From 34463a1fde45b4f59f0f128c591815cf0a333a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:55 +0000
Subject: [PATCH 09/46] fix: views are checked and limited to their window,
 view positions are absolute, negative peeks always close

---
 generated/gencode.rs | 15 ++++++++-------
 src/codegen/mod.rs   |  7 ++++++-
 src/codegen/model.rs |  2 +-
 src/parser/mod.rs    | 28 ++++++++++------------------
 src/parser/view.rs   | 25 ++++++++++++++++++++-----
 5 files changed, 45 insertions(+), 32 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 3978d6e..9d551d3 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8892,7 +8892,7 @@ return Err(ParseError::ExcludedBranch(5712308626808297759u64));
 let _here = _input.get_offset_u64();
 let waldo = {
 let scope = _input.view();
-scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)
+scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)?
 };
 _input.skip_remainder();
 PResult::Ok(waldo_main { r#where, noise, waldo })
@@ -13793,7 +13793,7 @@ u32be(x)
 };
 let signature = {
 let here_view = _input.view();
-here_view.read_len(signature_length as usize)
+here_view.read_len(signature_length as usize)?
 };
 PResult::Ok(opentype_dsig_sig_format1 { signature_length, signature })
 }
@@ -14279,7 +14279,7 @@ let svg_document_length = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize);
+let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize)?;
 let _svg_document_utf8 = std::marker::PhantomData;
 PResult::Ok(opentype_svg_document_record { start_glyph_id, end_glyph_id, svg_document_offset, svg_document_length, _svg_document, _svg_document_utf8 })
 }
@@ -16428,7 +16428,7 @@ unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?
 };
 let map_data = {
 let here_view = _input.view();
-here_view.read_len((map_count * (entry_size as u32)) as usize)
+here_view.read_len((map_count * (entry_size as u32)) as usize)?
 };
 PResult::Ok(opentype_var_delta_set_index_map { format, entry_size, inner_index_bits, map_count, map_data })
 }
@@ -21075,7 +21075,7 @@ fn Decoder_opentype_post_pascal_string<'input>(_input: &mut Parser<'input>) -> R
 let length = _input.read_byte()?;
 let string = {
 let pascal_string_data = _input.view();
-pascal_string_data.read_len(length as usize)
+pascal_string_data.read_len(length as usize)?
 };
 PResult::Ok(opentype_post_pascal_string { length, string })
 }
@@ -21107,7 +21107,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_name_record { platform, encoding, language, name_id, length, string })
@@ -21141,7 +21141,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_lang_tag_record { length, lang_tag })
@@ -24608,6 +24608,7 @@ Err(_e)
 if res.is_err() {
 _input.close_peek_not_context()?
 } else {
+_input.close_peek_not_context()?;
 return Err(ParseError::NegatedSuccess);
 }
 };
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 5ea9920..8330b7e 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2939,10 +2939,15 @@ where
                 let open_peek_not = RustStmt::Expr(model::open_peek_not(ctxt.parser())).into();
                 let bind_res =
                     GenStmt::assign(model::PEEK_NOT_RES, cl_inner.to_ast(ctxt).abstracted_try());
+                // NOTE - close the context in either case, so that an enclosing context cannot recover into it
+                let mut if_ok = GenBlock::explicit_return(model::err_bad_peek_not());
+                if_ok.prepend_stmt(GenStmt::Embed(RustStmt::Expr(model::try_close_peek_not(
+                    ctxt.parser(),
+                ))));
                 let close_or_fail = GenExpr::Control(Box::new(RustControl::If(
                     Box::new(RustExpr::local(model::PEEK_NOT_RES).call_method("is_err")),
                     GenBlock::simple_expr(model::try_close_peek_not(ctxt.parser())),
-                    Some(GenBlock::explicit_return(model::err_bad_peek_not())),
+                    Some(if_ok),
                 )));
                 let stmts = vec![open_peek_not, bind_res];
                 GenBlock::from_parts(stmts, Some(close_or_fail))
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index 5633b39..8756f50 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -244,7 +244,7 @@ pub fn get_view(parser: RustExpr) -> RustExpr {
 
 /// Model RustExpr for handling `ViewFormat::CaptureBytes(len)` in the Parser (View) model.
 pub fn read_from_view(view: RustExpr, len: RustExpr) -> RustExpr {
-    call!(view, read_len, len)
+    try_call!(view, read_len, len)
 }
 
 /// Model RustExpr for handling `ViewFormat::ReadArray(len, kind)` in the Parser (View) model.
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9dbcce4..ccdbe91 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -34,8 +34,8 @@ impl<'a> Parser<'a> {
         }
     }
 
-    /// Creates a [`View`] starting from the current position in the Parser,
-    /// provided it is in Bytes-mode.
+    /// Creates a [`View`] starting from the current position in the Parser and ending at the
+    /// limit of its current, possibly slice-limited context, provided it is in Bytes-mode.
     ///
     /// # Panics
     ///
@@ -44,7 +44,8 @@ impl<'a> Parser<'a> {
         let (cur_offset, None) = self.offset.get_current_offset().as_bytes() else {
             panic!("cannot open view while in bits-mode processing");
         };
-        self.buffer.offset(cur_offset).unwrap()
+        let (limit, _) = self.offset.current_limit().as_bytes();
+        self.buffer.truncate(limit).offset(cur_offset).unwrap()
     }
 
     /// Advances the offset by `offset` positions, as if calling [`Self::read_byte`] that many
@@ -167,21 +168,12 @@ impl<'a> Parser<'a> {
     /// assert_eq!(p.get_current_offset(), ByteOffset::Bytes(4));
     /// ```
     pub fn skip_align(&mut self, n: usize) -> Result<(), ParseError> {
-        let current_offset = self.offset.get_current_offset();
-        let aligned_offset = match current_offset {
-            ByteOffset::Bytes(nbytes) if nbytes % n == 0 => current_offset,
-            ByteOffset::Bits { bits_advanced, .. } if bits_advanced % n == 0 => current_offset,
-
-            ByteOffset::Bytes(nbytes) => ByteOffset::from_bytes(((nbytes / n) + 1) * n),
-            ByteOffset::Bits {
-                starting_byte,
-                bits_advanced,
-            } => ByteOffset::Bits {
-                starting_byte,
-                bits_advanced: (((bits_advanced / n) + 1) * n),
-            },
+        let n_read = match self.offset.get_current_offset() {
+            // NOTE - the buffer may itself be a view that starts partway into the original buffer
+            ByteOffset::Bytes(nbytes) => self.buffer.start_offset + nbytes,
+            ByteOffset::Bits { bits_advanced, .. } => bits_advanced,
         };
-        let delta = current_offset.delta(aligned_offset);
+        let delta = (n - n_read % n) % n;
         self.offset.try_increment(delta)?;
         Ok(())
     }
@@ -363,7 +355,7 @@ impl<'a> Parser<'a> {
     /// As currently defined, will panic if we are in bits-mode.
     pub fn get_offset_u64(&self) -> u64 {
         match self.get_current_offset() {
-            ByteOffset::Bytes(n) => n as u64,
+            ByteOffset::Bytes(n) => (self.buffer.start_offset + n) as u64,
             ByteOffset::Bits { .. } => {
                 // FIXME - this panic should perhaps be eliminated if possible
                 unreachable!("no unequivocal way to compute a byte-offset while in bits-mode");
diff --git a/src/parser/view.rs b/src/parser/view.rs
index 4a1f5c9..aacaf80 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -24,15 +24,28 @@ impl<'a> View<'a> {
         }
     }
 
-    /// Reads a slice of `len` bytes from the View, offset by `offset`.
-    pub fn read_len(&self, len: usize) -> &'a [u8] {
-        &self.buffer[..len]
+    /// Returns the slice of the first `len` bytes of the View.
+    pub fn read_len(&self, len: usize) -> Result<&'a [u8], DoodleParseError> {
+        self.buffer.get(..len).ok_or_else(|| {
+            DoodleParseError::Overrun(OverrunKind::EndOfStream {
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(len)),
+                max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
+            })
+        })
+    }
+
+    /// Restricts the View to at most its first `len` bytes.
+    pub(crate) fn truncate(&self, len: usize) -> Self {
+        View {
+            buffer: &self.buffer[..len.min(self.buffer.len())],
+            start_offset: self.start_offset,
+        }
     }
 
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
         if offset > self.buffer.len() {
             Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                offset: ByteOffset::from_bytes(self.start_offset + offset),
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(offset)),
                 max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
             }))
         } else {
@@ -55,7 +68,9 @@ impl<'a> View<'a> {
             Err(e) => match e {
                 AllSortsParseError::BadEof => {
                     Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                        offset: ByteOffset::from_bytes(self.start_offset + len * size),
+                        offset: ByteOffset::from_bytes(
+                            self.start_offset.saturating_add(len.saturating_mul(size)),
+                        ),
                         max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
                     }))
                 }
-- 
2.43.0


From 31c6dac67375ee90675d009977f4b380ea8d50ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:14 +0000
Subject: [PATCH 10/46] fix: unmatched patterns, over-subscribed code lengths
 and oversized requests are decode errors, not panics

---
 src/decoder.rs     | 30 ++++++++++++++++++++++--------
 src/loc_decoder.rs | 23 +++++++++++++++--------
 src/prelude.rs     |  2 +-
 src/read.rs        |  2 +-
 4 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 6197264..56dd1e1 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1529,7 +1529,7 @@ impl Decoder {
             Decoder::WithRelativeOffset(base_addr, expr, a) => {
                 let base = base_addr.eval_value(scope).unwrap_usize();
                 let offset = expr.eval_value(scope).unwrap_usize();
-                let abs_offset = base + offset;
+                let abs_offset = base.saturating_add(offset);
                 let seek_input = input.seek_to(abs_offset).ok_or(
                     DecodeErrorKind::bad_seek(abs_offset, input.input.len())
                         .with_trace("WithRelativeOffset(seek)"),
@@ -1595,11 +1595,16 @@ impl Decoder {
                             .map(|(v, input)| (Value::Branch(index, Box::new(v)), input)));
                     }
                 }
-                // REVIEW - should this be an error instead of a panic?
-                panic!(
-                    "non-exhaustive patterns: {head:?} not in {:#?}",
-                    branches.iter().map(|(p, _)| p).collect::<Vec<_>>()
-                );
+                Err(DecodeErrorKind::NoValidBranch {
+                    offset: input.offset,
+                }
+                .with_trace((
+                    "Match(non-exhaustive patterns)",
+                    format!(
+                        "{head:?} not in {:#?}",
+                        branches.iter().map(|(p, _)| p).collect::<Vec<_>>()
+                    ),
+                )))
             }
             Decoder::Dynamic(name, DynFormat::Huffman(lengths_expr, opt_values_expr), d) => {
                 let lengths_val = lengths_expr.eval(scope);
@@ -1616,7 +1621,12 @@ impl Decoder {
                     }
                 };
                 let f = make_huffman_codes(&lengths);
-                let dyn_d = Compiler::compile_one(&f).unwrap();
+                let dyn_d = Compiler::compile_one(&f).map_err(|err| {
+                    DecodeErrorKind::NoValidBranch {
+                        offset: input.offset,
+                    }
+                    .with_trace(("Dynamic(compile)", format!("{err}")))
+                })?;
                 let child_scope = DecoderScope::new(scope, name, dyn_d);
                 Ok(
                     try_with!(d.parse(program, &Scope::Decoder(child_scope), input) => ("Dynamic(parse)", name.to_string(), format!("{d:?}"))),
@@ -1773,7 +1783,7 @@ fn value_to_vec_usize(v: &Value) -> Vec<usize> {
 }
 
 fn make_huffman_codes(lengths: &[usize]) -> Format {
-    let max_length = *lengths.iter().max().unwrap();
+    let max_length = lengths.iter().copied().max().unwrap_or(0);
     let mut bl_count = [0].repeat(max_length + 1);
 
     for len in lengths {
@@ -1793,6 +1803,10 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
 
     for (n, &len) in lengths.iter().enumerate() {
         if len != 0 {
+            if next_code[len] >> len != 0 {
+                // NOTE - the lengths over-subscribe the code-space, so there is no such prefix code
+                return Format::Fail;
+            }
             codes.push(Format::Map(
                 Box::new(bit_range(len, next_code[len])),
                 Box::new(Expr::Lambda(
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index d5c0828..8a4ec6b 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1757,7 +1757,7 @@ impl Decoder {
             Decoder::WithRelativeOffset(base_addr, expr, a) => {
                 let base_addr = base_addr.eval_value_with_loc(scope).unwrap_usize();
                 let offset = expr.eval_value_with_loc(scope).unwrap_usize();
-                let abs_offset = base_addr + offset;
+                let abs_offset = base_addr.saturating_add(offset);
                 let seek_input = input
                     .seek_to(abs_offset)
                     .ok_or(DecodeErrorKind::bad_seek(abs_offset, input.input.len()))?;
@@ -1815,11 +1815,10 @@ impl Decoder {
                             .map(|(v, input)| (ParsedValue::Branch(index, Box::new(v)), input)));
                     }
                 }
-                // REVIEW - should this be an error instead of a panic?
-                panic!(
-                    "non-exhaustive patterns: {head:?} not in {:#?}",
-                    branches.iter().map(|(p, _)| p).collect::<Vec<_>>()
-                );
+                // NOTE - non-exhaustive patterns
+                Err(DecodeErrorKind::NoValidBranch {
+                    offset: input.offset,
+                })
             }
             Decoder::Dynamic(name, DynFormat::Huffman(lengths_expr, opt_values_expr), d) => {
                 let lengths_val = lengths_expr.eval_with_loc(scope);
@@ -1836,7 +1835,11 @@ impl Decoder {
                     }
                 };
                 let f = make_huffman_codes(&lengths);
-                let dyn_d = Compiler::compile_one(&f).unwrap();
+                let dyn_d = Compiler::compile_one(&f).map_err(|_| {
+                    DecodeErrorKind::NoValidBranch {
+                        offset: input.offset,
+                    }
+                })?;
                 let child_scope = LocDecoderScope::new(scope, name, dyn_d);
                 d.parse_with_loc(program, &LocScope::Decoder(child_scope), input)
             }
@@ -2002,7 +2005,7 @@ fn value_to_vec_usize(v: &ParsedValue) -> Vec<usize> {
 }
 
 fn make_huffman_codes(lengths: &[usize]) -> Format {
-    let max_length = *lengths.iter().max().unwrap();
+    let max_length = lengths.iter().copied().max().unwrap_or(0);
     let mut bl_count = [0].repeat(max_length + 1);
 
     for len in lengths {
@@ -2022,6 +2025,10 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
 
     for (n, &len) in lengths.iter().enumerate() {
         if len != 0 {
+            if next_code[len] >> len != 0 {
+                // NOTE - the lengths over-subscribe the code-space, so there is no such prefix code
+                return Format::Fail;
+            }
             codes.push(Format::Map(
                 Box::new(bit_range(len, next_code[len])),
                 Box::new(Expr::Lambda(
diff --git a/src/prelude.rs b/src/prelude.rs
index 4c218d9..ee5ead2 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -301,7 +301,7 @@ where
 pub fn make_huffman_decoder(
     lengths: &[usize],
 ) -> PResult<impl for<'a> Fn(&mut Parser<'a>) -> PResult<u16> + use<>> {
-    let max_length = *lengths.iter().max().unwrap();
+    let max_length = lengths.iter().copied().max().unwrap_or(0);
     let mut bl_count = [0].repeat(max_length + 1);
 
     for len in lengths {
diff --git a/src/read.rs b/src/read.rs
index 49a348b..0adf6de 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -47,7 +47,7 @@ impl<'a> ReadCtxt<'a> {
     /// Returns `None` if the specified position is out of bounds, i.e., if `offset + n`
     /// exceeds the length of the input.
     pub fn split_at(&self, n: usize) -> Option<(ReadCtxt<'a>, ReadCtxt<'a>)> {
-        if self.offset + n <= self.input.len() {
+        if n <= self.input.len() - self.offset {
             let fst = ReadCtxt {
                 input: &self.input[..self.offset + n],
                 ..*self
-- 
2.43.0


From 68abbf1df2b9019c94850b7946f5bcf9faea0828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:49 +0000
Subject: [PATCH 11/46] fix: counted repetitions and captures do not reserve
 memory for counts the input cannot hold

---
 src/decoder.rs     | 6 +++---
 src/loc_decoder.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 56dd1e1..fc5a003 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1370,7 +1370,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::new(), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(
@@ -1648,7 +1648,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for _ in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1670,7 +1670,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for ix in 0..len {
                     let (val, new_buf) = try_with!(read_base(buf, *kind) => ("ReadArray", format!("index: {ix}"), format!("kind: {kind:?}"), format!("view: {v_expr:?}")));
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 8a4ec6b..7774356 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1565,7 +1565,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value_with_loc(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::new(), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(a.parse_with_loc(program, scope, input)?
@@ -1859,7 +1859,7 @@ impl Decoder {
 
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for i in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1886,7 +1886,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for _ in 0..len {
                     let (val, new_buf) = read_base(buf, *kind)?;
-- 
2.43.0


From 02ba86d16396b9f2606714fdb56548df42fd7ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:07 +0000
Subject: [PATCH 12/46] fix: the located value of a repeat-until-sequence spans
 what it parsed

---
 src/loc_decoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 7774356..3e5340c 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1666,9 +1666,10 @@ impl Decoder {
                     })?;
                     break_if_done!(res => (v, input));
                 }
-                let total_len = input.offset - start_offset;
-                Ok(res
-                    .map(|(v, input, _)| (ParsedValue::new_seq(v, start_offset, total_len), input)))
+                Ok(res.map(|(v, input, _)| {
+                    let total_len = input.offset - start_offset;
+                    (ParsedValue::new_seq(v, start_offset, total_len), input)
+                }))
             }
             Decoder::AccumUntil(f_done, f_update, init, _vt, a) => {
                 let accum = init.eval_value_with_loc(scope);
-- 
2.43.0


From dde259117b863e2f68ecf0654a0c86d3df9cda19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:30 +0000
Subject: [PATCH 13/46] hook: read-only access to computed bounds under --cfg
 verif_hooks

---
 src/lib.rs         |  2 ++
 src/verif_hooks.rs | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 21c666f..11ba4d0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -42,6 +42,8 @@ mod typecheck;
 pub use typecheck::{TCResult, base_set, error::TCError, typecheck};
 mod util;
 pub(crate) use util::IxHeap;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
 pub(crate) mod validation;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..dca369a
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,24 @@
+//! Read-only access to internal analyses, compiled only under `--cfg verif_hooks`.
+
+use crate::bounds::Bounds;
+use crate::{Expr, Format, FormatModule};
+
+/// Consumption bounds computed for a format.
+pub fn match_bounds(module: &FormatModule, format: &Format) -> Bounds {
+    format.match_bounds(module)
+}
+
+/// Lookahead bounds computed for a format.
+pub fn lookahead_bounds(module: &FormatModule, format: &Format) -> Bounds {
+    format.lookahead_bounds(module)
+}
+
+/// Nullability verdict for a format.
+pub fn is_nullable(module: &FormatModule, format: &Format) -> bool {
+    format.is_nullable(module)
+}
+
+/// Range computed for a numeric expression.
+pub fn expr_bounds(expr: &Expr) -> Bounds {
+    expr.bounds()
+}
-- 
2.43.0


From 2032b94db4baff1951230757688c3d1e26a1cb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:44 +0000
Subject: [PATCH 14/46] fix: the type checker scopes record expressions,
 annotated shapes, merged unions and call arity correctly

---
 src/typecheck.rs       | 37 +++++++++++++++++++++++++++----------
 src/typecheck/error.rs |  6 ++++++
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/typecheck.rs b/src/typecheck.rs
index f01c424..f8af99c 100644
--- a/src/typecheck.rs
+++ b/src/typecheck.rs
@@ -1873,18 +1873,23 @@ impl TypeChecker {
                     self.unify_var_valuetype_union(uv, branches)?;
                 }
                 ValueType::Record(fs) => {
+                    let mut fields = Vec::with_capacity(fs.len());
                     for (lbl, fvt) in fs.iter() {
                         let fld_var = self.get_new_uvar();
-                        self.unify_var_proj_field(uv, lbl.clone(), fld_var)?;
                         self.unify_var_valuetype(fld_var, fvt)?;
+                        fields.push((lbl.clone(), fld_var.into()));
                     }
+                    // the shape is fully known, so it is equated rather than merely projected from
+                    self.unify_var_utype(uv, Rc::new(UType::Record(fields)))?;
                 }
                 ValueType::Tuple(ts) => {
-                    for (ix, t) in ts.iter().enumerate() {
-                        let ix_var = self.get_new_uvar();
-                        self.unify_var_proj_index(uv, ix, ix_var)?;
-                        self.unify_var_valuetype(ix_var, t)?;
+                    let mut elems = Vec::with_capacity(ts.len());
+                    for t in ts.iter() {
+                        let elem_var = self.get_new_uvar();
+                        self.unify_var_valuetype(elem_var, t)?;
+                        elems.push(elem_var.into());
                     }
+                    self.unify_var_utype(uv, Rc::new(UType::Tuple(elems)))?;
                 }
                 ValueType::Seq(inner) => {
                     let elem_v = self.get_new_uvar();
@@ -2173,9 +2178,15 @@ impl TypeChecker {
             unreachable!("missing varmap {hi} could not be removed")
         };
 
-        // ensure both variables now point to lo
+        // ensure both variables, and any others that still refer to hi, now point to lo
         self.repoint_vmid(v1, lo);
         self.repoint_vmid(v2, lo);
+        for constraints in self.constraints.iter_mut() {
+            match constraints {
+                Constraints::Variant(id) if *id == hi => *id = lo,
+                _ => (),
+            }
+        }
 
         // return the de-facto vmid for both variables
         Ok(lo)
@@ -2272,11 +2283,9 @@ impl TypeChecker {
             Expr::Record(fs) => {
                 let newvar = self.get_new_uvar();
                 let mut fields = Vec::with_capacity(fs.len());
-                let mut child = UMultiScope::with_capacity(scope, fs.len());
                 for (lbl, f) in fs {
-                    let scope = UScope::Multi(&child);
-                    let f_var = self.infer_var_expr(f, &scope)?;
-                    child.push(lbl.clone(), f_var);
+                    // NOTE - unlike record formats, record expressions do not bring earlier fields into scope
+                    let f_var = self.infer_var_expr(f, scope)?;
                     fields.push((lbl.clone(), f_var.into()));
                 }
                 self.unify_var_utype(newvar, Rc::new(UType::Record(fields)))?;
@@ -3400,6 +3409,14 @@ impl TypeChecker {
             }
             Format::ItemVar(level, args, views) => {
                 let newvar = self.get_new_uvar();
+                let expected = (
+                    ctxt.module.get_args(*level).len(),
+                    ctxt.module.get_view_args(*level).len(),
+                );
+                let actual = (args.len(), views.len());
+                if expected != actual {
+                    return Err(TCErrorKind::ArityMismatch(*level, expected, actual).into());
+                }
                 let level_var = if !args.is_empty() || !views.is_empty() {
                     let mut arg_scope = UMultiScope::new(ctxt.scope);
                     let mut view_scope = ViewMultiScope::new(&ctxt.views);
diff --git a/src/typecheck/error.rs b/src/typecheck/error.rs
index c08f6b8..8744ecf 100644
--- a/src/typecheck/error.rs
+++ b/src/typecheck/error.rs
@@ -209,6 +209,8 @@ pub enum TCErrorKind {
     NoSolution(UVar),
     /// No view-var in scope bound to the given label
     MissingView(Label),
+    /// Format-item was invoked with the wrong number of (value, view) arguments
+    ArityMismatch(usize, (usize, usize), (usize, usize)),
     /// InferenceError occurred for a variable within a numeric subtree
     Inference(UVar, InferenceError),
     /// Contextually numeric variable found to have a non-numeric constraints
@@ -240,6 +242,10 @@ impl std::fmt::Display for TCErrorKind {
                     "attempted unification `{uv} {constraint}` precluded by prior constraint `{uv} ⊇ {vmid} (:= {vm:?})`"
                 ),
             },
+            TCErrorKind::ArityMismatch(level, expected, actual) => write!(
+                f,
+                "format-item {level} expects {expected:?} (value, view) arguments but was invoked with {actual:?}"
+            ),
             TCErrorKind::Unification(c_err) => write!(f, "{c_err}"),
             TCErrorKind::InfiniteType(v, constraints) => match constraints {
                 Constraints::Indefinite => {
-- 
2.43.0


From 6ae88b205e13b4c5e0277f49db1c11c876d48142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:44 +0000
Subject: [PATCH 15/46] fix: definition-time inference checks sizes, offsets,
 negated peeks, view arguments and symbol lists

---
 src/lib.rs | 52 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 11ba4d0..30b6a3f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1041,6 +1041,9 @@ impl FormatModule {
                     let t = expr.infer_type(scope)?;
                     let _t = arg_type.unify(&t)?;
                 }
+                for view in arg_views {
+                    view.check_type(scope)?;
+                }
                 Ok(self.get_format_type(*level).clone())
             }
             Format::DecodeBytes(bytes, f) => {
@@ -1197,10 +1200,30 @@ impl FormatModule {
                 )),
             },
             Format::Peek(a) => self.infer_format_type(scope, a),
-            Format::PeekNot(_a) => Ok(ValueType::Tuple(vec![])),
-            Format::Slice(_expr, a) => self.infer_format_type(scope, a),
+            Format::PeekNot(a) => {
+                self.infer_format_type(scope, a)?;
+                Ok(ValueType::Tuple(vec![]))
+            }
+            Format::Slice(size, a) => match size.infer_type(scope)? {
+                t if t.is_numeric() => self.infer_format_type(scope, a),
+                other => Err(anyhow!(
+                    "Slice first argument type should be numeric, found {other:?} instead"
+                )),
+            },
             Format::Bits(a) => self.infer_format_type(scope, a),
-            Format::WithRelativeOffset(_base_addr, _offset, a) => self.infer_format_type(scope, a),
+            Format::WithRelativeOffset(base_addr, offset, a) => {
+                for expr in [base_addr, offset] {
+                    match expr.infer_type(scope)? {
+                        t if t.is_numeric() => (),
+                        other => {
+                            return Err(anyhow!(
+                                "WithRelativeOffset address and offset types should be numeric, found {other:?} instead"
+                            ));
+                        }
+                    }
+                }
+                self.infer_format_type(scope, a)
+            }
             Format::Map(a, expr) => {
                 let arg_type = self.infer_format_type(scope, a)?;
                 match expr.as_ref() {
@@ -1276,21 +1299,22 @@ impl FormatModule {
             }
             Format::Dynamic(name, dynformat, format) => {
                 match dynformat {
-                    DynFormat::Huffman(lengths_expr, _opt_values_expr) => {
-                        match lengths_expr.infer_type(scope)? {
-                            ValueType::Seq(t) => match &*t {
-                                &ValueType::U8 | &ValueType::U16 => {}
+                    DynFormat::Huffman(lengths_expr, opt_values_expr) => {
+                        for expr in std::iter::once(lengths_expr).chain(opt_values_expr) {
+                            match expr.infer_type(scope)? {
+                                ValueType::Seq(t) => match &*t {
+                                    &ValueType::U8 | &ValueType::U16 => {}
+                                    other => {
+                                        return Err(anyhow!(
+                                            "Huffman: expected U8 or U16, found {other:?}"
+                                        ));
+                                    }
+                                },
                                 other => {
-                                    return Err(anyhow!(
-                                        "Huffman: expected U8 or U16, found {other:?}"
-                                    ));
+                                    return Err(anyhow!("Huffman: expected Seq, found {other:?}"));
                                 }
-                            },
-                            other => {
-                                return Err(anyhow!("Huffman: expected Seq, found {other:?}"));
                             }
                         }
-                        // FIXME check opt_values_expr type
                     }
                 }
                 let mut child_scope = TypeScope::child(scope);
-- 
2.43.0


From f786d76e7eb81cf76dbf6e2e97380ee6e7314ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:33 +0000
Subject: [PATCH 16/46] fix: account for bits lost by Shl in expression bounds

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 30b6a3f..6547f9a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -735,7 +735,15 @@ impl Expr {
                 Arith::Div => a.bounds() / b.bounds(),
                 Arith::BitOr => a.bounds() | b.bounds(),
                 Arith::BitAnd => a.bounds() & b.bounds(),
-                Arith::Shl => a.bounds() << b.bounds(),
+                Arith::Shl => {
+                    let shifted = a.bounds() << b.bounds();
+                    match shifted.max() {
+                        Some(max) if max <= u8::MAX as usize => shifted,
+                        // NOTE - bits shifted past the width of the operand (which is not known here) are lost
+                        Some(max) => Bounds::at_most(max),
+                        None => Bounds::any(),
+                    }
+                }
                 Arith::Shr => a.bounds() >> b.bounds(),
                 Arith::Rem => Bounds::rem(a.bounds(), b.bounds()),
                 Arith::BoolOr | Arith::BoolAnd => Bounds::any(),
-- 
2.43.0


From c3e31c37e6fcd227e362736ed1eb5826f3e41ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:33 +0000
Subject: [PATCH 17/46] fix: treat integer ranges as sequences of their
 elements in every sequence expression, pattern and operator

---
 src/decoder.rs          |  31 ++++++------
 src/decoder/seq_kind.rs |  26 ++++++----
 src/decoder/value.rs    | 104 +++++++++++++++++++++++++++++++---------
 src/loc_decoder.rs      |  86 +++++++++++++++++++++------------
 4 files changed, 170 insertions(+), 77 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index fc5a003..9e1fec2 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -361,26 +361,25 @@ impl Expr {
                     _ => panic!("FlatMap: expected Seq"),
                 }
             }
-            Expr::FlatMapAccum(expr, accum, _accum_type, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
+            Expr::FlatMapAccum(expr, accum, _accum_type, seq) => match seq.eval_value(scope).into_sequence() {
+                Some(values) => {
                     let mut accum = accum.eval_value(scope);
                     let mut vs = Vec::new();
                     for v in values {
                         let ret = expr.eval_lambda(scope, &Value::Tuple(vec![accum, v]));
-                        accum = match extract_pair(ret.unwrap_tuple()) {
-                            (accum, Value::Seq(vn)) => {
-                                vs.extend(vn);
-                                accum
-                            }
-                            _ => panic!("FlatMapAccum: expected two values"),
-                        };
+                        let (new_accum, vn) = extract_pair(ret.unwrap_tuple());
+                        match vn.extract_mapped_value().into_sequence() {
+                            Some(vn) => vs.extend(vn),
+                            None => panic!("FlatMapAccum: expected Seq as second value"),
+                        }
+                        accum = new_accum;
                     }
                     Cow::Owned(Value::Seq(vs.into()))
                 }
                 _ => panic!("FlatMapAccum: expected Seq"),
             },
-            Expr::LeftFold(expr, accum, _accum_type, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
+            Expr::LeftFold(expr, accum, _accum_type, seq) => match seq.eval_value(scope).into_sequence() {
+                Some(values) => {
                     let mut accum = accum.eval_value(scope);
                     for v in values {
                         let tmp = expr.eval_lambda(scope, &Value::Tuple(vec![accum, v]));
@@ -390,8 +389,8 @@ impl Expr {
                 }
                 _ => panic!("LeftFold: expected Seq"),
             },
-            Expr::FindByKey(is_sorted, f_get_key, query_key, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
+            Expr::FindByKey(is_sorted, f_get_key, query_key, seq) => match seq.eval_value(scope).into_sequence() {
+                Some(values) => {
                     let query = query_key.eval_value(scope);
                     let eval = |lambda: &Expr, arg: &Value| lambda.eval_lambda(scope, arg);
                     if *is_sorted {
@@ -412,12 +411,12 @@ impl Expr {
                 }
                 _ => panic!("FindByKey: expected Seq"),
             },
-            Expr::FlatMapList(expr, _ret_type, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
+            Expr::FlatMapList(expr, _ret_type, seq) => match seq.eval_value(scope).into_sequence() {
+                Some(values) => {
                     let mut vs = Vec::new();
                     for v in values {
                         let arg = Value::Tuple(vec![Value::Seq(SeqKind::Strict(vs)), v]);
-                        if let Value::Seq(vn) = expr.eval_lambda(scope, &arg) {
+                        if let Some(vn) = expr.eval_lambda(scope, &arg).into_sequence() {
                             vs = match arg {
                                 Value::Tuple(mut args) => match args.remove(0) {
                                     Value::Seq(vs) => vs.into_vec(),
diff --git a/src/decoder/seq_kind.rs b/src/decoder/seq_kind.rs
index 11d8717..44f6115 100644
--- a/src/decoder/seq_kind.rs
+++ b/src/decoder/seq_kind.rs
@@ -37,15 +37,25 @@ impl<'a, V: Clone> ValueSeq<'a, V> {
         }
     }
 
-    pub fn append(self, other: Self) -> SeqKind<V> {
-        if matches!(self, ValueSeq::IntRange(..)) | matches!(other, ValueSeq::IntRange(..)) {
-            unimplemented!("appending int ranges");
-        }
-        match (self, other) {
-            (ValueSeq::ValueSeq(v1), ValueSeq::ValueSeq(v2)) => (*v1).clone().append((*v2).clone()),
-            _ => unreachable!(),
+    /// Returns the sequence as a `SeqKind`, listing out the elements of an integer range.
+    pub fn into_seq_kind(self) -> Cow<'a, SeqKind<V>>
+    where
+        V: From<usize>,
+    {
+        match self {
+            ValueSeq::ValueSeq(vs) => Cow::Borrowed(vs),
+            ValueSeq::IntRange(r) => Cow::Owned(SeqKind::Strict(r.map(V::from).collect())),
         }
     }
+
+    pub fn append(self, other: Self) -> SeqKind<V>
+    where
+        V: From<usize>,
+    {
+        let v1 = self.into_seq_kind().into_owned();
+        let v2 = other.into_seq_kind().into_owned();
+        v1.append(v2)
+    }
 }
 
 pub(crate) fn sub_range(
@@ -54,7 +64,7 @@ pub(crate) fn sub_range(
     len: usize,
 ) -> std::ops::Range<usize> {
     assert!(
-        start + len < range.len(),
+        start + len <= range.len(),
         "sub_range invalid: start={start} len={len} range={range:?}"
     );
     range.start + start..range.start + start + len
diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 8782114..6f00c68 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -173,42 +173,35 @@ impl Value {
         }
     }
 
-    pub(crate) fn matches_inner<'a>(
-        &'a self,
-        scope: &mut MultiScope<'a>,
-        pattern: &Pattern,
-    ) -> bool {
-        if let Pattern::Binding(name) = pattern {
-            scope.push(name.clone(), self);
-            return true;
-        }
-        // NOTE - how a (sub-)value was produced has no bearing on whether it matches
-        let this = self.coerce_nominal_value();
+    /// Determines whether this value matches a pattern over numbers (which cannot bind any names).
+    fn matches_int(&self, pattern: &Pattern) -> bool {
         match pattern {
-            Pattern::Binding(..) => unreachable!("handled above"),
             Pattern::Wildcard => true,
-            Pattern::Bool(b0) => matches!(this, Value::Bool(b1) if b0 == b1),
-            Pattern::U8(i0) => match this {
+            Pattern::U8(i0) => match self {
                 Value::U8(i1) if i0 == i1 => true,
+                Value::Usize(i1) => u8::try_from(*i1).is_ok_and(|i1| *i0 == i1),
                 Value::Numeric(n) => n.matches_u8(*i0),
                 _ => false,
             },
-            Pattern::U16(i0) => match this {
+            Pattern::U16(i0) => match self {
                 Value::U16(i1) if i0 == i1 => true,
+                Value::Usize(i1) => u16::try_from(*i1).is_ok_and(|i1| *i0 == i1),
                 Value::Numeric(n) => n.matches_u16(*i0),
                 _ => false,
             },
-            Pattern::U32(i0) => match this {
+            Pattern::U32(i0) => match self {
                 Value::U32(i1) if i0 == i1 => true,
+                Value::Usize(i1) => u32::try_from(*i1).is_ok_and(|i1| *i0 == i1),
                 Value::Numeric(n) => n.matches_u32(*i0),
                 _ => false,
             },
-            Pattern::U64(i0) => match this {
+            Pattern::U64(i0) => match self {
                 Value::U64(i1) if i0 == i1 => true,
+                Value::Usize(i1) => u64::try_from(*i1).is_ok_and(|i1| *i0 == i1),
                 Value::Numeric(n) => n.matches_u64(*i0),
                 _ => false,
             },
-            Pattern::Int(bounds) => match this {
+            Pattern::Int(bounds) => match self {
                 Value::U8(n) => bounds.contains(usize::from(*n)),
                 Value::U16(n) => bounds.contains(usize::from(*n)),
                 Value::U32(n) => bounds.contains(usize::try_from(*n).unwrap()),
@@ -217,7 +210,7 @@ impl Value {
                 Value::Numeric(n) => n.matches_int_range(*bounds),
                 _ => false,
             },
-            Pattern::ZConst(z) => match this {
+            Pattern::ZConst(z) => match self {
                 Value::U8(n) => z == &BigInt::from(*n),
                 Value::U16(n) => z == &BigInt::from(*n),
                 Value::U32(n) => z == &BigInt::from(*n),
@@ -226,7 +219,7 @@ impl Value {
                 Value::Numeric(n) => n.eq_num(z),
                 _ => false,
             },
-            Pattern::ZRange(range) => match this {
+            Pattern::ZRange(range) => match self {
                 Value::U8(n) => range.contains(&BigInt::from(*n)),
                 Value::U16(n) => range.contains(&BigInt::from(*n)),
                 Value::U32(n) => range.contains(&BigInt::from(*n)),
@@ -235,6 +228,32 @@ impl Value {
                 Value::Numeric(n) => range.contains(n.as_raw_value()),
                 _ => false,
             },
+            _ => false,
+        }
+    }
+
+    pub(crate) fn matches_inner<'a>(
+        &'a self,
+        scope: &mut MultiScope<'a>,
+        pattern: &Pattern,
+    ) -> bool {
+        if let Pattern::Binding(name) = pattern {
+            scope.push(name.clone(), self);
+            return true;
+        }
+        // NOTE - how a (sub-)value was produced has no bearing on whether it matches
+        let this = self.coerce_nominal_value();
+        match pattern {
+            Pattern::Binding(..) => unreachable!("handled above"),
+            Pattern::Wildcard => true,
+            Pattern::Bool(b0) => matches!(this, Value::Bool(b1) if b0 == b1),
+            Pattern::U8(..)
+            | Pattern::U16(..)
+            | Pattern::U32(..)
+            | Pattern::U64(..)
+            | Pattern::Int(..)
+            | Pattern::ZConst(..)
+            | Pattern::ZRange(..) => this.matches_int(pattern),
             Pattern::Char(c0) => matches!(this, Value::Char(c1) if c0 == c1),
             Pattern::Tuple(ps) => match this {
                 Value::Tuple(vs) if ps.len() == vs.len() => {
@@ -256,6 +275,16 @@ impl Value {
                     }
                     true
                 }
+                Value::EnumFromTo(range) if ps.len() == range.len() => {
+                    for (p, i) in Iterator::zip(ps.iter(), range.clone()) {
+                        if let Pattern::Binding(name) = p {
+                            scope.push_owned(name.clone(), Value::from(i));
+                        } else if !Value::from(i).matches_int(p) {
+                            return false;
+                        }
+                    }
+                    true
+                }
                 _ => false,
             },
             Pattern::Variant(label0, p) => match this {
@@ -329,6 +358,37 @@ impl Value {
         }
     }
 
+    /// Converts a sequence-valued `Value` into its elements, listing out those of an integer range.
+    pub(crate) fn into_sequence(self) -> Option<SeqKind<Self>> {
+        match self {
+            Value::Seq(elts) => Some(elts),
+            Value::EnumFromTo(range) => Some(SeqKind::Strict(range.map(Value::from).collect())),
+            _ => None,
+        }
+    }
+
+    /// If exactly one of the two operands is an element of an integer range (represented as `Value::Usize`),
+    /// adapts it to the width of the other operand.
+    fn unify_usize(left: Value, right: Value) -> (Value, Value) {
+        fn adapt(n: usize, other: &Value) -> Value {
+            match other {
+                Value::U8(_) => u8::try_from(n).map_or(Value::Usize(n), Value::U8),
+                Value::U16(_) => u16::try_from(n).map_or(Value::Usize(n), Value::U16),
+                Value::U32(_) => u32::try_from(n).map_or(Value::Usize(n), Value::U32),
+                Value::U64(_) => Value::U64(n as u64),
+                _ => Value::Usize(n),
+            }
+        }
+        match (left, right) {
+            (Value::Usize(l), right) => (adapt(l, &right), right),
+            (left, Value::Usize(r)) => {
+                let right = adapt(r, &left);
+                (left, right)
+            }
+            pair => pair,
+        }
+    }
+
     pub(crate) fn is_boolean(&self) -> bool {
         matches!(self.coerce_mapped_value(), Value::Bool(_))
     }
@@ -475,7 +535,7 @@ where
 
 impl Value {
     pub fn int_rel(rel: IntRel, left: Value, right: Value) -> Value {
-        match (left, right) {
+        match Value::unify_usize(left, right) {
             (Value::U8(l), Value::U8(r)) => Value::Bool(__rel(rel, l, r)),
             (Value::U16(l), Value::U16(r)) => Value::Bool(__rel(rel, l, r)),
             (Value::U32(l), Value::U32(r)) => Value::Bool(__rel(rel, l, r)),
@@ -559,7 +619,7 @@ impl Value {
                 }
             }
         } else {
-            match (left, right) {
+            match Value::unify_usize(left, right) {
                 (Value::U8(l), Value::U8(r)) => Value::U8(__arith(arith, l, r)),
                 (Value::U16(l), Value::U16(r)) => Value::U16(__arith(arith, l, r)),
                 (Value::U32(l), Value::U32(r)) => Value::U32(__arith(arith, l, r)),
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 3e5340c..21aa568 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -377,22 +377,42 @@ impl ParsedValue {
                     inner: Value::Bool(b1),
                     ..
                 }) if b0 == b1),
-            Pattern::U8(i0) => matches!(this, ParsedValue::Flat(Parsed {
-                    inner: Value::U8(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U16(i0) => matches!(this, ParsedValue::Flat(Parsed {
-                    inner: Value::U16(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U32(i0) => matches!(this, ParsedValue::Flat(Parsed {
-                    inner: Value::U32(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U64(i0) => matches!(this, ParsedValue::Flat(Parsed {
-                    inner: Value::U64(i1),
-                    ..
-                }) if i0 == i1),
+            Pattern::U8(i0) => match this {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U8(i1) => i0 == i1,
+                    Value::Usize(i1) => u8::try_from(*i1).is_ok_and(|i1| *i0 == i1),
+                    Value::Numeric(n) => n.matches_u8(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::U16(i0) => match this {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U16(i1) => i0 == i1,
+                    Value::Usize(i1) => u16::try_from(*i1).is_ok_and(|i1| *i0 == i1),
+                    Value::Numeric(n) => n.matches_u16(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::U32(i0) => match this {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U32(i1) => i0 == i1,
+                    Value::Usize(i1) => u32::try_from(*i1).is_ok_and(|i1| *i0 == i1),
+                    Value::Numeric(n) => n.matches_u32(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::U64(i0) => match this {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U64(i1) => i0 == i1,
+                    Value::Usize(i1) => u64::try_from(*i1).is_ok_and(|i1| *i0 == i1),
+                    Value::Numeric(n) => n.matches_u64(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
             Pattern::Char(c0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::Char(c1),
                     ..
@@ -417,6 +437,11 @@ impl ParsedValue {
                     }
                     true
                 }
+                ParsedValue::Flat(Parsed {
+                    inner: Value::EnumFromTo(range),
+                    ..
+                }) if ps.len() == range.len() => Iterator::zip(ps.iter(), range.clone())
+                    .all(|(p, i)| ParsedValue::from(i).matches_inner(scope, p)),
                 _ => false,
             },
             Pattern::Variant(label0, p) => match this {
@@ -435,6 +460,7 @@ impl ParsedValue {
                     Value::U32(n) => bounds.contains(usize::try_from(*n).unwrap()),
                     Value::U64(n) => bounds.contains(usize::try_from(*n).unwrap()),
                     Value::Usize(n) => bounds.contains(*n),
+                    Value::Numeric(n) => n.matches_int_range(*bounds),
                     _ => false,
                 },
                 _ => false,
@@ -935,7 +961,7 @@ impl Expr {
                     Some(values) => {
                         let mut vs: Vec<Value> = Vec::new();
                         for v in values {
-                            if let Value::Seq(vn) = expr.eval_lambda_with_loc(scope, &v) {
+                            if let Some(vn) = expr.eval_lambda_with_loc(scope, &v).into_sequence() {
                                 vs.extend(vn);
                             } else {
                                 panic!("FlatMap: expected Seq");
@@ -962,13 +988,12 @@ impl Expr {
                                 v.clone_into_value(),
                             ])),
                         );
-                        accum = match extract_pair(ret.unwrap_tuple()) {
-                            (accum, Value::Seq(vn)) => {
-                                vs.extend(vn);
-                                accum
-                            }
-                            other => panic!("FlatMapAccum: bad lambda output type {other:?}"),
-                        };
+                        let (new_accum, vn) = extract_pair(ret.unwrap_tuple());
+                        match vn.extract_mapped_value().into_sequence() {
+                            Some(vn) => vs.extend(vn),
+                            None => panic!("FlatMapAccum: expected Seq as second value"),
+                        }
+                        accum = new_accum;
                     }
                     Cow::Owned(ParsedValue::from_evaluated(Value::Seq(vs.into())))
                 }
@@ -1001,7 +1026,8 @@ impl Expr {
                     .coerce_mapped_value()
                     .get_sequence()
                 {
-                    Some(ValueSeq::ValueSeq(values)) => {
+                    Some(values) => {
+                        let values = &*values.into_seq_kind();
                         let eval =
                             |lambda: &Expr, v: &ParsedValue| lambda.eval_lambda_with_loc(scope, v);
                         let query = query_key.eval_value_with_loc(scope);
@@ -1025,20 +1051,18 @@ impl Expr {
                             }
                         }
                     }
-                    Some(ValueSeq::IntRange(_)) => {
-                        unimplemented!("FindByKey: unimplemented on IntRange")
-                    }
                     None => panic!("FindByKey: expected Seq"),
                 }
             }
-            Expr::FlatMapList(expr, _ret_type, seq) => match seq.eval_value_with_loc(scope) {
-                Value::Seq(values) => {
+            Expr::FlatMapList(expr, _ret_type, seq) => match seq.eval_value_with_loc(scope).into_sequence() {
+                Some(values) => {
                     let mut vs = Vec::new();
                     for v in values {
                         let arg = Value::Tuple(vec![Value::Seq(vs.into()), v]);
                         // TODO can we avoid cloning arg here?
-                        if let Value::Seq(vn) = expr
+                        if let Some(vn) = expr
                             .eval_lambda_with_loc(scope, &ParsedValue::from_evaluated(arg.clone()))
+                            .into_sequence()
                         {
                             vs = match arg {
                                 Value::Tuple(mut args) => match args.remove(0) {
-- 
2.43.0


From 1a6ff624f546bf8fa51893c985fe1ce8f5614bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:26 +0000
Subject: [PATCH 18/46] fix: located for-each sees through wrappers around its
 sequence

---
 src/loc_decoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 21aa568..981332d 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1568,7 +1568,10 @@ impl Decoder {
                 .join(|(_, input)| db.parse_with_loc(program, scope, input)),
             Decoder::ForEach(expr, lbl, a) => {
                 let val = expr.eval_with_loc(scope);
-                let seq = val.get_sequence().expect("bad type for ForEach input");
+                let seq = val
+                    .coerce_mapped_value()
+                    .get_sequence()
+                    .expect("bad type for ForEach input");
                 Ok(WithErr::fold(
                     (Vec::with_capacity(seq.len()), input),
                     seq,
-- 
2.43.0


From 46ea579aad7d2fb8ace8bed01a994a52e0b24c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:00 +0000
Subject: [PATCH 19/46] fix: a permitted failure consumes nothing, so its
 format is nullable

---
 src/codegen/typed_format.rs | 5 +++--
 src/format.rs               | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/codegen/typed_format.rs b/src/codegen/typed_format.rs
index cba0d8e..b60957c 100644
--- a/src/codegen/typed_format.rs
+++ b/src/codegen/typed_format.rs
@@ -481,9 +481,10 @@ impl TypedFormat<GenType> {
             }
             #[cfg(feature = "format_enforce")]
             TypedFormat::Enforce(.., inner) => inner.match_bounds(),
-            TypedFormat::Permit(.., inner, _) | TypedFormat::Hint(.., inner) => {
-                inner.match_bounds()
+            TypedFormat::Permit(.., inner, _) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds())
             }
+            TypedFormat::Hint(.., inner) => inner.match_bounds(),
             TypedFormat::LiftedOption(_, f) => {
                 f.as_ref().map_or(Bounds::exact(0), |f| f.match_bounds())
             }
diff --git a/src/format.rs b/src/format.rs
index 12f1662..abac819 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -312,7 +312,11 @@ impl Format {
             Format::LetFormat(first, _, second) | Format::MonadSeq(first, second) => {
                 first.match_bounds(module) + second.match_bounds(module)
             }
-            Format::Permit(inner, ..) | Format::Hint(.., inner) => inner.match_bounds(module),
+            // NOTE - if the inner format fails, the fallback value is yielded without consuming anything
+            Format::Permit(inner, ..) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds(module))
+            }
+            Format::Hint(.., inner) => inner.match_bounds(module),
             #[cfg(feature = "format_enforce")]
             Format::Enforce(inner) => inner.match_bounds(module),
             Format::LiftedOption(opt) => match opt {
-- 
2.43.0


From db196be7156346768f45f4ce70b23b89b19098e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:44 +0000
Subject: [PATCH 20/46] fix: numeric evaluation at the edges: no overflow panic
 for MIN, remainder by a non-positive divisor agrees with the core evaluator

---
 src/numeric/eval.rs | 81 ++++++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 26 deletions(-)

diff --git a/src/numeric/eval.rs b/src/numeric/eval.rs
index 4f4cdca..5e88857 100644
--- a/src/numeric/eval.rs
+++ b/src/numeric/eval.rs
@@ -120,15 +120,43 @@ macro_rules! homogenous {
     };
 }
 
-/// Macro for bulk definition of homogenously typed binary operations with a quotient version provided by a trait (`num_traits`), where None indicates NaN
+/// Division is undefined only for a zero divisor
+macro_rules! undefined_quotient {
+    ($rhs:expr) => {
+        $rhs.is_zero()
+    };
+}
+
+/// Remainder is undefined for every non-positive divisor (c.f. `RemainderNonPositive` in [`crate::numeric::core::EvalError`])
+macro_rules! undefined_remainder {
+    ($rhs:expr) => {
+        $rhs <= 0
+    };
+}
+
+/// Macro for bulk definition of homogenously typed binary operations with a quotient version provided by a trait (`num_traits`), where an
+/// undefined operation is NaN and `None` indicates overflow (e.g. `iX::MIN / -1`)
 macro_rules! homogenous_quotient {
-    ( $( $tr:ident, $meth:ident => $( ( $fname:ident, $t:ty ) ),+ $(,)? );+ $(;)? ) => {
+    ( $( $tr:ident, $meth:ident, $op:tt, $undef:ident => $( ( $fname:ident, $t:ty ) ),+ $(,)? );+ $(;)? ) => {
         $(
             $(
                 pub fn $fname(lhs: $t, rhs: $t) -> Eval<$t> {
+                    if $undef!(rhs) {
+                        return Eval::NaN;
+                    }
                     match <$t as $tr>::$meth(&lhs, &rhs) {
                         Some(res) => Eval::Direct(res),
-                        None => Eval::NaN,
+                        None => {
+                            Eval::Indirect(
+                                IndirectEval {
+                                    value: Rc::new(LazyCell::new(
+                                        Box::new(move ||
+                                            BigInt::from(lhs) $op BigInt::from(rhs)
+                                        )
+                                    )),
+                                }
+                            )
+                        }
                     }
                 }
             )*
@@ -155,14 +183,17 @@ macro_rules! widening {
 }
 
 macro_rules! widening_quotient {
-    ( $( $tr:ident, $meth:ident => $( ( $in_t:ty => $( ( $fname:ident, $out_t:ty ) ),+ $(,)? ) ),+ $(,)? );+ $(;)? ) => {
+    ( $( $tr:ident, $meth:ident, $op:tt, $undef:ident => $( ( $in_t:ty => $( ( $fname:ident, $out_t:ty ) ),+ $(,)? ) ),+ $(,)? );+ $(;)? ) => {
         $(
             $(
                 $(
                     pub fn $fname(lhs: $in_t, rhs: $in_t) -> Eval<$out_t> {
+                        if $undef!(rhs) {
+                            return Eval::NaN;
+                        }
                         match <$out_t as $tr>::$meth(&(lhs as $out_t), &(rhs as $out_t)) {
                             Some(res) => Eval::Direct(res),
-                            None => Eval::NaN,
+                            None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || BigInt::from(lhs) $op BigInt::from(rhs)))) }),
                         }
                     }
                 )*
@@ -190,14 +221,17 @@ macro_rules! mixed_widening {
 }
 
 macro_rules! mixed_widening_quotient {
-    ( $( $tr:ident, $meth:ident => $( ( $left_t:ty, $right_t:ty => $( ( $fname:ident, $out_t:ty ) ),+ $(,)? ) ),+ $(,)? );+ $(;)? ) => {
+    ( $( $tr:ident, $meth:ident, $op:tt, $undef:ident => $( ( $left_t:ty, $right_t:ty => $( ( $fname:ident, $out_t:ty ) ),+ $(,)? ) ),+ $(,)? );+ $(;)? ) => {
         $(
             $(
                 $(
                     pub fn $fname(lhs: $left_t, rhs: $right_t) -> Eval<$out_t> {
+                        if $undef!(rhs) {
+                            return Eval::NaN;
+                        }
                         match <$out_t as $tr>::$meth(&(lhs as $out_t), &(rhs as $out_t)) {
                             Some(res) => Eval::Direct(res),
-                            None => Eval::NaN,
+                            None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || BigInt::from(lhs) $op BigInt::from(rhs)))) }),
                         }
                     }
                 )*
@@ -242,7 +276,7 @@ homogenous! {
 // (T, T) -> T binary operations involving quotients (failure is NaN)
 // Responsible for 16 function definitions
 homogenous_quotient! {
-    CheckedDiv, checked_div =>
+    CheckedDiv, checked_div, /, undefined_quotient =>
         (div_u8, u8),
         (div_u16, u16),
         (div_u32, u32),
@@ -251,7 +285,7 @@ homogenous_quotient! {
         (div_i16, i16),
         (div_i32, i32),
         (div_i64, i64);
-    CheckedRem, checked_rem =>
+    CheckedRem, checked_rem, %, undefined_remainder =>
         (rem_u8, u8),
         (rem_u16, u16),
         (rem_u32, u32),
@@ -294,7 +328,7 @@ widening! {
 // (T0, T0) -> T1 binary operations where the values of T0 are a subset of T1 and failure indicates NaN
 // Responsible for 28 function definitions
 widening_quotient! {
-    CheckedDiv, checked_div =>
+    CheckedDiv, checked_div, /, undefined_quotient =>
         // 14 functions
         (u8 => (div_u8_u16, u16), (div_u8_u32, u32), (div_u8_u64, u64), (div_u8_i16, i16), (div_u8_i32, i32), (div_u8_i64, i64)),
         (u16 => (div_u16_u32, u32), (div_u16_u64, u64), (div_u16_i32, i32), (div_u16_i64, i64)),
@@ -302,7 +336,7 @@ widening_quotient! {
         (i8 => (div_i8_i16, i16), (div_i8_i32, i32), (div_i8_i64, i64)),
         (i16 => (div_i16_i32, i32), (div_i16_i64, i64)),
         (i32 => (div_i32_i64, i64));
-    CheckedRem, checked_rem =>
+    CheckedRem, checked_rem, %, undefined_remainder =>
         // 14 functions
         (u8 => (rem_u8_u16, u16), (rem_u8_u32, u32), (rem_u8_u64, u64), (rem_u8_i16, i16), (rem_u8_i32, i32), (rem_u8_i64, i64)), // 6
         (u16 => (rem_u16_u32, u32), (rem_u16_u64, u64), (rem_u16_i32, i32), (rem_u16_i64, i64)), // 4
@@ -446,7 +480,7 @@ mixed_widening! {
 
 // Responsible for 140 functions
 mixed_widening_quotient! {
-    CheckedDiv, checked_div =>
+    CheckedDiv, checked_div, /, undefined_quotient =>
         // <= Bits8 (6 functions)
         (u8, i8 => (div_u8_i8_i16, i16), (div_u8_i8_i32, i32), (div_u8_i8_i64, i64)),
         (i8, u8 => (div_i8_u8_i16, i16), (div_i8_u8_i32, i32), (div_i8_u8_i64, i64)),
@@ -490,7 +524,7 @@ mixed_widening_quotient! {
         (u32, i32 => (div_u32_i32_i64, i64)),
         (i32, u32 => (div_i32_u32_i64, i64)),
         ;
-    CheckedRem, checked_rem =>
+    CheckedRem, checked_rem, %, undefined_remainder =>
         // <= Bits8 (6 functions)
         (u8, i8 => (rem_u8_i8_i16, i16), (rem_u8_i8_i32, i32), (rem_u8_i8_i64, i64)),
         (i8, u8 => (rem_i8_u8_i16, i16), (rem_i8_u8_i32, i32), (rem_i8_u8_i64, i64)),
@@ -577,7 +611,10 @@ macro_rules! negate_as_signed {
     ( $( $t:ty, $fname:ident );+ $(;)? ) => {
         $(
             pub fn $fname(x: $t) -> Eval<$t> {
-                Eval::Direct(<$t as Neg>::neg(x))
+                match x.checked_neg() {
+                    Some(res) => Eval::Direct(res),
+                    None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || BigInt::from(x).neg()))) }),
+                }
             }
         )*
     };
@@ -640,12 +677,9 @@ macro_rules! negate_unsigned_unsigned {
 macro_rules! abs_as_signed {
     ( $( $t:ty, $fname:ident );+ $(;)? ) => {
         $( pub fn $fname(x: $t) -> Eval<$t> {
-            let tmp = <$t as ::num_traits::Signed>::abs(&x);
-            // NOTE - Signed::abs(iX::MIN) == iX::MIN
-            if tmp == <$t>::MIN {
-                Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || ::num_bigint::BigInt::from(x).abs()))) })
-            } else {
-                Eval::Direct(tmp)
+            match x.checked_abs() {
+                Some(res) => Eval::Direct(res),
+                None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || ::num_bigint::BigInt::from(x).abs()))) }),
             }
         } )+
     };
@@ -668,12 +702,7 @@ macro_rules! abs_signed_unsigned {
         $(
             $(
                 pub fn $fname(x: $t) -> Eval<$t1> {
-                    let tmp = <$t as ::num_traits::Signed>::abs(&x);
-                    if tmp == <$t>::MIN {
-                        Eval::Direct(<$t>::MAX as $t1 + 1)
-                    } else {
-                        Eval::Direct(tmp as $t1)
-                    }
+                    Eval::Direct(x.unsigned_abs() as $t1)
                 }
             )+
         )+
-- 
2.43.0


From 14631f931266f4b042d461510e84dc1378a6b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:44 +0000
Subject: [PATCH 21/46] fix: the body of a conditional format is compiled with
 what follows it

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 9e1fec2..4572941 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -803,7 +803,7 @@ impl<'a> Compiler<'a> {
                 ))
             }
             Format::Maybe(x, a) => {
-                let da = Box::new(self.compile_format(a, Rc::new(Next::Empty))?);
+                let da = Box::new(self.compile_format(a, next)?);
                 Ok(Decoder::Maybe(x.clone(), da))
             }
             Format::Peek(a) => {
-- 
2.43.0


From 46205fff1d26db4e2c8ec687e3477fbc6129f293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:01 +0000
Subject: [PATCH 22/46] fix: a look-ahead keeps the alternatives of what it
 constrains when that may also end

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6547f9a..690d338 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1515,10 +1515,6 @@ impl<'a> MatchTreeStep<'a> {
     fn peek(mut self, peek: MatchTreeStep<'a>) -> MatchTreeStep<'a> {
         if peek.accept {
             // can ignore peek as it has already accepted
-        } else if self.accept {
-            // can ignore self as it has already accepted
-            self.accept = peek.accept;
-            self.branches = peek.branches;
         } else {
             // take the intersection of peek and self branches
             let mut branches = Vec::new();
@@ -1531,6 +1527,11 @@ impl<'a> MatchTreeStep<'a> {
                     }
                 }
             }
+            if self.accept {
+                // once self has accepted, only peek has any say in what comes next
+                self.accept = false;
+                branches.extend(peek.branches);
+            }
             self.branches = branches;
         }
         self
-- 
2.43.0


From 6ae235276088e2b7162727fd324fd0799b4fd755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:01 +0000
Subject: [PATCH 23/46] fix: prediction past a repetition of a nullable body no
 longer recurses without end

---
 src/lib.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 690d338..684195e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1413,12 +1413,15 @@ type MTFormatSlice<'a> = MaybeTyped<'a, [Format], [TypedFormat<GenType>]>;
 /// Incremental decomposition of a Format into a partially consumed head
 /// sub-format, and a possibly-empty tail of remaining sub-formats.
 ///
-/// All variants other than [`Next::Empty`] and [`Next::Union`] implicitly have a tail-recursive
+/// [`Next::Anything`] stands for a tail that is not known, and that admits every byte-sequence.
+///
+/// All variants other than [`Next::Empty`], [`Next::Anything`] and [`Next::Union`] implicitly have a tail-recursive
 /// element, which is invariably the final positional argument for that variant. In the case of
 /// [`Next::Union`], the recursive descent is symmetric and may be balanced arbitrarily.
 #[derive(PartialEq, Eq, Hash, Debug)]
 enum Next<'a> {
     Empty,
+    Anything,
     Union(Rc<Next<'a>>, Rc<Next<'a>>),
     Cat(MTFormatRef<'a>, Rc<Next<'a>>),
     Sequence(MTFormatSlice<'a>, Rc<Next<'a>>),
@@ -1667,6 +1670,10 @@ impl<'a> MatchTreeStep<'a> {
     fn from_next(module: &'a FormatModule, next: Rc<Next<'a>>) -> MatchTreeStep<'a> {
         match next.as_ref() {
             Next::Empty => Self::accept(),
+            Next::Anything => MatchTreeStep {
+                accept: true,
+                branches: vec![(ByteSet::full(), next)],
+            },
             Next::Union(next1, next2) => {
                 let tree1 = Self::from_next(module, next1.clone());
                 let tree2 = Self::from_next(module, next2.clone());
@@ -1699,7 +1706,16 @@ impl<'a> MatchTreeStep<'a> {
             }
             Next::Repeat(a, next0) => {
                 let tree = MatchTreeStep::<'a>::from_next(module, next0.clone());
-                let next1 = next.clone();
+                let is_nullable = match a {
+                    MaybeTyped::Untyped(f) => f.is_nullable(module),
+                    MaybeTyped::Typed(tf) => tf.is_nullable(),
+                };
+                let next1 = if is_nullable {
+                    // an iteration that consumes nothing would bring us back here, without end
+                    Rc::new(Next::Anything)
+                } else {
+                    next.clone()
+                };
                 tree.union(MatchTreeStep::<'a>::from_mt_format(module, *a, next1))
             }
             Next::RepeatBetween(n, m, a, next0) => {
-- 
2.43.0


From 9b0ff8a4e39e1c6e649ce8a1abd58dd9ce903be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:01 +0000
Subject: [PATCH 24/46] fix: a named choice is compiled apart from its context
 only if no continuation can affect it

---
 src/format.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index abac819..7f480b9 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -454,10 +454,11 @@ impl Format {
                 fmts.iter().any(|f| f.depends_on_next(module))
             }
             Format::Repeat(..) | Format::Repeat1(..) | Format::RepeatBetween(..) => true,
-            Format::RepeatCount(..) | Format::RepeatUntilLast(..) | Format::RepeatUntilSeq(..) => {
-                false
-            }
-            Format::AccumUntil(..) => false,
+            // NOTE - whenever the last element is reached, it is followed by whatever comes after the whole repetition
+            Format::RepeatCount(_, f)
+            | Format::RepeatUntilLast(_, f)
+            | Format::RepeatUntilSeq(_, f)
+            | Format::AccumUntil(.., f) => f.depends_on_next(module),
             Format::Maybe(..) => true,
             Format::Peek(..) | Format::PeekNot(..) => false,
             Format::Slice(..) => false,
@@ -492,7 +493,8 @@ impl Format {
             }
             fs.push(f.clone());
         }
-        MatchTree::build(module, &fs, Rc::new(Next::Empty)).is_none()
+        // NOTE - the choice is only context-free if it can be settled no matter what follows, and not merely when nothing does
+        MatchTree::build(module, &fs, Rc::new(Next::Anything)).is_none()
     }
 }
 
-- 
2.43.0


From 25c29341c126df7d5e8ea4c1c7b6e21012ec0c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:26 +0000
Subject: [PATCH 25/46] fix: deflate.uncompressed refuses a stored block whose
 NLEN contradicts LEN

---
 doodle-formats/src/format/deflate.rs |    9 +
 generated/gencode.rs                 | 1124 +++++++++++++-------------
 2 files changed, 577 insertions(+), 556 deletions(-)

diff --git a/doodle-formats/src/format/deflate.rs b/doodle-formats/src/format/deflate.rs
index d65a860..38709a0 100644
--- a/doodle-formats/src/format/deflate.rs
+++ b/doodle-formats/src/format/deflate.rs
@@ -374,6 +374,15 @@ pub fn main(module: &mut FormatModule) -> FormatRef {
             ("__align", Format::Align(8)),
             ("len", bits16(16)),
             ("nlen", bits16(16)),
+            (
+                // NLEN is the one's complement of LEN
+                "__nlen-check",
+                where_lambda(
+                    compute(var("nlen")),
+                    "nlen",
+                    expr_eq(var("nlen"), sub(Expr::U16(0xFFFF), var("len"))),
+                ),
+            ),
             ("bytes", repeat_count(var("len"), bits8(8))),
             (
                 "codes-values",
diff --git a/generated/gencode.rs b/generated/gencode.rs
index 9d551d3..fa63e20 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -14756,6 +14756,18 @@ let nlen = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 (bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | (bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16 | (bits.12 as u16) << 12u16 | (bits.13 as u16) << 13u16 | (bits.14 as u16) << 14u16 | (bits.15 as u16) << 15u16
 };
+{
+let inner = nlen;
+let is_valid = {
+let nlen = inner;
+nlen == (try_sub!(65535u16, len, 15803403730818557393u64))
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(8390724546948265409u64));
+}
+};
 let bytes = {
 let mut accum = Vec::new();
 for _ in 0..len {
@@ -15875,7 +15887,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15803403730818557393u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 }))
 },
@@ -16027,7 +16039,7 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(8390724546948265409u64));
+return Err(ParseError::FailToken(11915580511665106140u64));
 },
 
 _other => {
@@ -16162,7 +16174,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6347242493551283856u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17324980155911269375u64));
 inner
 }
 };
@@ -16228,7 +16240,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4251627061094365437u64));
+return Err(ParseError::FalsifiedWhere(17670535809278048255u64));
 }
 };
 let variation_regions = {
@@ -16401,7 +16413,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11915580511665106140u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2444204717155307095u64));
 inner
 }
 };
@@ -16485,7 +16497,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17324980155911269375u64));
+return Err(ParseError::FalsifiedWhere(1278184758971178969u64));
 }
 };
 let tuple_variation_headers = {
@@ -16678,7 +16690,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4480225125687487743u64));
+return Err(ParseError::ExcludedBranch(11250208753083412758u64));
 }
 };
 _input.close_peek_context()?;
@@ -16692,7 +16704,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17670535809278048255u64));
+return Err(ParseError::ExcludedBranch(4480225125687487743u64));
 }
 };
 (0u16, [].to_vec())
@@ -16704,7 +16716,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2444204717155307095u64));
+return Err(ParseError::ExcludedBranch(12879845237981630531u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16716,7 +16728,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1278184758971178969u64));
+return Err(ParseError::ExcludedBranch(3426398976290336157u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16724,7 +16736,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12879845237981630531u64));
+return Err(ParseError::ExcludedBranch(17349123374714965876u64));
 }
 })
 }
@@ -16854,7 +16866,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3426398976290336157u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2153064741293804702u64));
 inner
 }
 };
@@ -17003,7 +17015,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11250208753083412758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
 inner
 }
 };
@@ -17019,7 +17031,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17349123374714965876u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3249387167439447765u64));
 inner
 }
 };
@@ -17075,7 +17087,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2153064741293804702u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
 inner
 }
 };
@@ -17091,7 +17103,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8700288293163706751u64));
 inner
 }
 };
@@ -17233,7 +17245,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
+return Err(ParseError::FalsifiedWhere(16771529512960957239u64));
 }
 };
 let table_scope = table_view;
@@ -17249,7 +17261,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
+return Err(ParseError::FalsifiedWhere(13846498452079501214u64));
 }
 };
 let extension_offset = {
@@ -17302,11 +17314,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(8700288293163706751u64));
+return Err(ParseError::FailToken(9798710097031164942u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(16771529512960957239u64));
+return Err(ParseError::FailToken(9819345728844658158u64));
 }
 })
 }
@@ -17330,7 +17342,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(13846498452079501214u64));
+return Err(ParseError::FailToken(18279137173405083757u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17399,7 +17411,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
+return Err(ParseError::FalsifiedWhere(14954891776835932150u64));
 }
 };
 let coverage = {
@@ -17448,7 +17460,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9819345728844658158u64));
+return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
 }
 };
 let coverage = {
@@ -17506,7 +17518,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(18279137173405083757u64));
+return Err(ParseError::FailToken(14984809111992638634u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17537,7 +17549,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14954891776835932150u64));
+return Err(ParseError::FailToken(9342187932533045817u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17558,7 +17570,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
+return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
 }
 };
 let table_scope = table_view;
@@ -17689,7 +17701,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14984809111992638634u64));
+return Err(ParseError::FailToken(2688427941405105545u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17937,7 +17949,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9342187932533045817u64));
+return Err(ParseError::FailToken(6279463968646665849u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18179,7 +18191,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
+return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
 }
 };
 let seq_lookup_count = {
@@ -18417,7 +18429,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11323981950571132721u64));
 inner
 }
 };
@@ -18566,7 +18578,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+return Err(ParseError::FalsifiedWhere(1179945139148562335u64));
 }
 };
 let table_scope = table_view;
@@ -18582,7 +18594,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(3270685119814653163u64));
 }
 };
 let extension_offset = {
@@ -18640,11 +18652,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(11323981950571132721u64));
+return Err(ParseError::FailToken(6821845925776570829u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(15898809900392744567u64));
 }
 })
 }
@@ -18668,7 +18680,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(5653230390980289841u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18693,7 +18705,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6821845925776570829u64));
+return Err(ParseError::FailToken(9179996462972575343u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18714,7 +18726,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
+return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
 }
 };
 let table_scope = table_view;
@@ -18756,7 +18768,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
 }
 };
 let table_scope = table_view;
@@ -18815,7 +18827,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
+return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
 }
 };
 let mark_coverage = {
@@ -18872,7 +18884,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
+return Err(ParseError::FalsifiedWhere(10310785543736156275u64));
 }
 };
 let table_scope = table_view;
@@ -19030,7 +19042,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6495907546257147840u64));
+return Err(ParseError::FailToken(16594239496794104967u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19178,7 +19190,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8327471529801851430u64));
+return Err(ParseError::ExcludedBranch(16529910322175208638u64));
 }
 };
 let arg1 = {
@@ -19186,7 +19198,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10310785543736156275u64));
+return Err(ParseError::ExcludedBranch(12187643960709778443u64));
 }
 };
 (arg0, arg1)
@@ -20124,7 +20136,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16594239496794104967u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8766708729375264031u64));
 inner
 }
 };
@@ -20215,7 +20227,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16529910322175208638u64));
+return Err(ParseError::FailToken(1369437808023015077u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20464,7 +20476,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(12187643960709778443u64));
+return Err(ParseError::FailToken(163858356033350300u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20528,7 +20540,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8766708729375264031u64));
+return Err(ParseError::FailToken(888161872995526095u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21177,7 +21189,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
+return Err(ParseError::FalsifiedWhere(4770836931378141069u64));
 }
 };
 let max_twilight_points = {
@@ -21220,7 +21232,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(163858356033350300u64));
+return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21339,7 +21351,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3595277668730903043u64));
 inner
 }
 };
@@ -21364,7 +21376,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4770836931378141069u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
 inner
 }
 };
@@ -21407,7 +21419,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9976720501248819272u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12530712830475607577u64));
 inner
 }
 };
@@ -21422,7 +21434,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(1386817607731947864u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21443,7 +21455,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4795509455376621436u64));
 inner
 }
 };
@@ -21459,7 +21471,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(3923207427992258326u64));
 }
 };
 let language = {
@@ -21580,7 +21592,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
 inner
 }
 };
@@ -21605,7 +21617,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4795509455376621436u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
 inner
 }
 };
@@ -21659,7 +21671,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
 inner
 }
 };
@@ -21740,7 +21752,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
 inner
 }
 };
@@ -21791,7 +21803,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
 inner
 }
 };
@@ -21807,7 +21819,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
 inner
 }
 };
@@ -21832,7 +21844,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
 inner
 }
 };
@@ -21848,7 +21860,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
 inner
 }
 };
@@ -21903,7 +21915,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -21919,7 +21931,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -21944,7 +21956,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
 inner
 }
 };
@@ -21960,7 +21972,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
 inner
 }
 };
@@ -22014,7 +22026,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
 inner
 }
 };
@@ -22030,7 +22042,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -22055,7 +22067,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -22071,7 +22083,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -22118,7 +22130,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -22134,7 +22146,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -22159,7 +22171,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -22175,7 +22187,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -22222,7 +22234,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -22247,7 +22259,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -22414,7 +22426,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5170050512307443704u64));
+return Err(ParseError::FalsifiedWhere(5159371628350638829u64));
 })
 }
 
@@ -22600,7 +22612,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18440348483137307888u64));
+return Err(ParseError::ExcludedBranch(7762269623995317946u64));
 }
 };
 let arg1 = {
@@ -22608,7 +22620,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11309019127259385425u64));
+return Err(ParseError::ExcludedBranch(16134612799304961491u64));
 }
 };
 let arg2 = {
@@ -22616,7 +22628,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5159371628350638829u64));
+return Err(ParseError::ExcludedBranch(5308477118997970057u64));
 }
 };
 let arg3 = {
@@ -22624,7 +22636,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7762269623995317946u64));
+return Err(ParseError::ExcludedBranch(16190528142421852545u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22656,7 +22668,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16134612799304961491u64));
+return Err(ParseError::ExcludedBranch(173922233423713068u64));
 }
 };
 accum.push(next_elem)
@@ -22679,7 +22691,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5308477118997970057u64));
+return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
 })
 }
 
@@ -22698,7 +22710,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16190528142421852545u64));
+return Err(ParseError::FalsifiedWhere(515819609734101411u64));
 })
 }
 
@@ -22728,7 +22740,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(173922233423713068u64));
+return Err(ParseError::FalsifiedWhere(9277543013594125416u64));
 })
 }
 
@@ -22742,7 +22754,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
+return Err(ParseError::FalsifiedWhere(5955168674639093440u64));
 })
 }
 
@@ -22756,7 +22768,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(515819609734101411u64));
+return Err(ParseError::FalsifiedWhere(4471438437047399494u64));
 })
 }
 
@@ -22817,7 +22829,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9277543013594125416u64));
+return Err(ParseError::ExcludedBranch(13319523888327217639u64));
 }
 };
 _input.close_peek_context()?;
@@ -22830,7 +22842,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5955168674639093440u64));
+return Err(ParseError::ExcludedBranch(824589811577025210u64));
 }
 };
 accum.push(next_elem)
@@ -22863,7 +22875,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4471438437047399494u64));
+return Err(ParseError::ExcludedBranch(4649034608147552416u64));
 }
 };
 accum.push(next_elem)
@@ -22898,7 +22910,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13319523888327217639u64));
+return Err(ParseError::ExcludedBranch(16096650375442290768u64));
 }
 };
 _input.close_peek_context()?;
@@ -22911,7 +22923,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(824589811577025210u64));
+return Err(ParseError::ExcludedBranch(14339975513692068616u64));
 }
 };
 accum.push(next_elem)
@@ -22944,7 +22956,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4649034608147552416u64));
+return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 }
 };
 accum.push(next_elem)
@@ -22979,7 +22991,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 }
 };
 _input.close_peek_context()?;
@@ -22992,7 +23004,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(12668500753644823654u64));
 }
 };
 accum.push(next_elem)
@@ -23025,7 +23037,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(8094248233631264621u64));
 }
 };
 accum.push(next_elem)
@@ -23048,23 +23060,12 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
-}
-};
-try_sub!(bit as u8, 48u8, 8094248233631264621u64)
-};
-let _o9 = {
-let bit = {
-let b = _input.read_byte()?;
-if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
-b
-} else {
 return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 }
 };
 try_sub!(bit as u8, 48u8, 7230273548678969972u64)
 };
-let _o8 = {
+let _o9 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23075,7 +23076,7 @@ return Err(ParseError::ExcludedBranch(14903563845775542749u64));
 };
 try_sub!(bit as u8, 48u8, 9038350950373664822u64)
 };
-let _o7 = {
+let _o8 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23086,7 +23087,7 @@ return Err(ParseError::ExcludedBranch(7281717462557989541u64));
 };
 try_sub!(bit as u8, 48u8, 14681668243282477517u64)
 };
-let _o6 = {
+let _o7 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23097,7 +23098,7 @@ return Err(ParseError::ExcludedBranch(6209434968043366837u64));
 };
 try_sub!(bit as u8, 48u8, 12217686503432178884u64)
 };
-let _o5 = {
+let _o6 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23108,7 +23109,7 @@ return Err(ParseError::ExcludedBranch(8399572043096922156u64));
 };
 try_sub!(bit as u8, 48u8, 9815657591077818003u64)
 };
-let _o4 = {
+let _o5 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23119,7 +23120,7 @@ return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 };
 try_sub!(bit as u8, 48u8, 14485842416732585139u64)
 };
-let _o3 = {
+let _o4 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23130,7 +23131,7 @@ return Err(ParseError::ExcludedBranch(8179432974518885725u64));
 };
 try_sub!(bit as u8, 48u8, 13780055874544357936u64)
 };
-let _o2 = {
+let _o3 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23141,7 +23142,7 @@ return Err(ParseError::ExcludedBranch(16909208071962620789u64));
 };
 try_sub!(bit as u8, 48u8, 12100308281236296642u64)
 };
-let _o1 = {
+let _o2 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23152,7 +23153,7 @@ return Err(ParseError::ExcludedBranch(9041056097467752267u64));
 };
 try_sub!(bit as u8, 48u8, 3810055094392728880u64)
 };
-let _o0 = {
+let _o1 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23163,6 +23164,17 @@ return Err(ParseError::ExcludedBranch(15252450768049745444u64));
 };
 try_sub!(bit as u8, 48u8, 16437491640759399344u64)
 };
+let _o0 = {
+let bit = {
+let b = _input.read_byte()?;
+if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
+b
+} else {
+return Err(ParseError::ExcludedBranch(2988545765690796708u64));
+}
+};
+try_sub!(bit as u8, 48u8, 17176374570344757031u64)
+};
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
 tar_header_size_lhs { value }
@@ -23189,7 +23201,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2988545765690796708u64));
+return Err(ParseError::ExcludedBranch(3566920116549027235u64));
 }
 };
 _input.close_peek_context()?;
@@ -23202,7 +23214,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6215067399528787845u64));
+return Err(ParseError::ExcludedBranch(7979287392867129207u64));
 }
 };
 accum.push(next_elem)
@@ -23235,7 +23247,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17176374570344757031u64));
+return Err(ParseError::ExcludedBranch(3653195934333285574u64));
 }
 };
 accum.push(next_elem)
@@ -23270,7 +23282,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3566920116549027235u64));
+return Err(ParseError::ExcludedBranch(16671136947067655757u64));
 }
 };
 _input.close_peek_context()?;
@@ -23283,7 +23295,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(10721249873135158334u64));
 }
 };
 accum.push(next_elem)
@@ -23316,7 +23328,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3653195934333285574u64));
+return Err(ParseError::ExcludedBranch(8898504689444561451u64));
 }
 };
 accum.push(next_elem)
@@ -23345,7 +23357,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16671136947067655757u64));
+return Err(ParseError::ExcludedBranch(441240706992005484u64));
 }
 };
 let arg1 = {
@@ -23353,7 +23365,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(3950014938140253048u64));
 }
 };
 let arg2 = {
@@ -23361,7 +23373,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8898504689444561451u64));
+return Err(ParseError::ExcludedBranch(10046433636842398056u64));
 }
 };
 let arg3 = {
@@ -23369,7 +23381,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(441240706992005484u64));
+return Err(ParseError::ExcludedBranch(11079395374415646537u64));
 }
 };
 let arg4 = {
@@ -23377,7 +23389,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(757122060916971772u64));
 }
 };
 let arg5 = {
@@ -23385,7 +23397,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10046433636842398056u64));
+return Err(ParseError::ExcludedBranch(5986772336072340665u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23396,7 +23408,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11079395374415646537u64));
+return Err(ParseError::ExcludedBranch(8812292064350598352u64));
 }
 };
 let arg1 = {
@@ -23404,7 +23416,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(10645729856418057640u64));
 }
 };
 (arg0, arg1)
@@ -23443,7 +23455,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5986772336072340665u64));
+return Err(ParseError::ExcludedBranch(2908689796368760670u64));
 }
 };
 _input.close_peek_context()?;
@@ -23456,7 +23468,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8812292064350598352u64));
+return Err(ParseError::ExcludedBranch(4316175446384649956u64));
 }
 };
 accum.push(next_elem)
@@ -23489,7 +23501,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(13311790038092155306u64));
 }
 };
 accum.push(next_elem)
@@ -23524,7 +23536,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2908689796368760670u64));
+return Err(ParseError::ExcludedBranch(4598583460226006268u64));
 }
 };
 _input.close_peek_context()?;
@@ -23537,7 +23549,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4316175446384649956u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 accum.push(next_elem)
@@ -23570,7 +23582,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 accum.push(next_elem)
@@ -23600,7 +23612,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 }
 };
 accum.push(next_elem)
@@ -23631,7 +23643,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 _input.close_peek_context()?;
@@ -23650,7 +23662,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 accum.push(next_elem)
@@ -23680,7 +23692,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 accum.push(next_elem)
@@ -23699,7 +23711,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 })
 }
 
@@ -23721,7 +23733,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 _input.close_peek_context()?;
@@ -23734,7 +23746,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 accum.push(next_elem)
@@ -23766,7 +23778,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 accum.push(next_elem)
@@ -23797,7 +23809,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 _input.close_peek_context()?;
@@ -23810,7 +23822,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 accum.push(next_elem)
@@ -23848,7 +23860,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 accum.push(next_elem)
@@ -23874,7 +23886,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 _input.close_peek_context()?;
@@ -23888,7 +23900,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 let arg1 = {
@@ -23896,7 +23908,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23908,7 +23920,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 let arg1 = {
@@ -23916,14 +23928,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 })
 }
@@ -24132,7 +24144,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 })
 } else {
 None
@@ -24154,7 +24166,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1029952099207838423u64));
+return Err(ParseError::FalsifiedWhere(3089242474000390105u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24186,7 +24198,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17327099206515189757u64));
+return Err(ParseError::FalsifiedWhere(8785324329127396734u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24318,7 +24330,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14652068248613900169u64));
+return Err(ParseError::FalsifiedWhere(14646838598150249928u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24352,7 +24364,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3089242474000390105u64));
+return Err(ParseError::FalsifiedWhere(14949659785259585833u64));
 }
 };
 let flags = {
@@ -24395,7 +24407,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8785324329127396734u64));
+return Err(ParseError::FalsifiedWhere(562280208679883345u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24413,7 +24425,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 let arg1 = {
@@ -24421,7 +24433,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 let arg2 = {
@@ -24429,7 +24441,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 let arg3 = {
@@ -24437,7 +24449,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24450,7 +24462,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 let arg1 = {
@@ -24458,7 +24470,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 let arg2 = {
@@ -24466,7 +24478,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 let arg3 = {
@@ -24474,7 +24486,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24516,7 +24528,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 let arg1 = {
@@ -24524,7 +24536,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 };
 let arg2 = {
@@ -24532,7 +24544,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 }
 };
 let arg3 = {
@@ -24540,7 +24552,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(14571733789425208869u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24564,7 +24576,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(6611121695530188940u64));
 }
 };
 let arg1 = {
@@ -24572,7 +24584,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(9660375186237087060u64));
 }
 };
 let arg2 = {
@@ -24580,7 +24592,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(11684704871632490773u64));
 }
 };
 let arg3 = {
@@ -24588,7 +24600,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24619,7 +24631,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9660375186237087060u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 accum.push(next_elem)
@@ -24781,7 +24793,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11684704871632490773u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 };
 val.clone()
@@ -24791,7 +24803,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24866,7 +24878,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9710347097769530785u64));
+return Err(ParseError::FalsifiedWhere(5869833854865239916u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24881,7 +24893,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 val.clone()
@@ -24891,7 +24903,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 let compression_method = {
@@ -24899,7 +24911,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 let language_tag = {
@@ -24919,7 +24931,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 _input.close_peek_context()?;
@@ -24932,7 +24944,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 accum.push(next_elem)
@@ -24947,7 +24959,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 chars.clone()
@@ -24959,7 +24971,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 val.clone()
@@ -25046,7 +25058,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 val.clone()
@@ -25084,7 +25096,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 val.clone()
@@ -25094,7 +25106,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 let compressed_text = {
@@ -25235,7 +25247,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 val.clone()
@@ -25245,7 +25257,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 };
 let palette = match sample_depth {
@@ -25836,24 +25848,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
@@ -26307,6 +26301,24 @@ return Err(ParseError::ExcludedBranch(3265375406401843811u64));
 _ => {
 return Err(ParseError::ExcludedBranch(11458871772722170518u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(15301408058960503169u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4255813677013328811u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -26320,7 +26332,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+return Err(ParseError::ExcludedBranch(7761201277159812979u64));
 }
 };
 accum.push(next_elem)
@@ -26813,24 +26825,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(15301408058960503169u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4255813677013328811u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7761201277159812979u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(15409834313606096443u64));
 }
@@ -27284,6 +27278,24 @@ return Err(ParseError::ExcludedBranch(329678914966083835u64));
 _ => {
 return Err(ParseError::ExcludedBranch(6740511944232229269u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2734069901426030304u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8313738771561634204u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -27297,7 +27309,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+return Err(ParseError::ExcludedBranch(5782291498890001703u64));
 }
 };
 accum.push(next_elem)
@@ -27322,7 +27334,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2734069901426030304u64));
+return Err(ParseError::FalsifiedWhere(10699246393255895644u64));
 }
 };
 let flags = {
@@ -27835,24 +27847,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(8313738771561634204u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5782291498890001703u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(10699246393255895644u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(16725113430369695556u64));
 }
@@ -28306,6 +28300,24 @@ return Err(ParseError::ExcludedBranch(608962121954693839u64));
 _ => {
 return Err(ParseError::ExcludedBranch(4003079682566975393u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(1862457564087794359u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4725257428709613290u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -28319,7 +28331,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+return Err(ParseError::ExcludedBranch(11823569341425521789u64));
 }
 };
 accum.push(next_elem)
@@ -28812,24 +28824,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(1862457564087794359u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4725257428709613290u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(11823569341425521789u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(14474361861190022573u64));
 }
@@ -29283,6 +29277,24 @@ return Err(ParseError::ExcludedBranch(7135191863324865081u64));
 _ => {
 return Err(ParseError::ExcludedBranch(5733684513012333041u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3269600573864009399u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14275129881911283147u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -29296,7 +29308,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3269600573864009399u64));
+return Err(ParseError::ExcludedBranch(8473763373531540844u64));
 }
 };
 accum.push(next_elem)
@@ -29354,7 +29366,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+return Err(ParseError::ExcludedBranch(9532564966458988001u64));
 }
 };
 _input.close_peek_context()?;
@@ -29387,7 +29399,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14275129881911283147u64));
+return Err(ParseError::FalsifiedWhere(1456571545446476568u64));
 }
 };
 let flags = {
@@ -29461,7 +29473,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+return Err(ParseError::ExcludedBranch(14908888453225293887u64));
 }
 };
 _input.close_peek_context()?;
@@ -29532,7 +29544,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+return Err(ParseError::ExcludedBranch(4384065895993710795u64));
 }
 };
 _input.close_peek_context()?;
@@ -30033,24 +30045,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(1456571545446476568u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(14908888453225293887u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4384065895993710795u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(14063858022942822585u64));
 }
@@ -30504,6 +30498,24 @@ return Err(ParseError::ExcludedBranch(13705211812356460160u64));
 _ => {
 return Err(ParseError::ExcludedBranch(5515497093089591991u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(1328880024623199753u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(6882184431082022206u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3998072683184925592u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -30517,7 +30529,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1328880024623199753u64));
+return Err(ParseError::ExcludedBranch(29850628954056690u64));
 }
 };
 accum.push(next_elem)
@@ -30542,7 +30554,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6882184431082022206u64));
+return Err(ParseError::FalsifiedWhere(7279615132236188739u64));
 }
 };
 let flags = {
@@ -30578,7 +30590,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3998072683184925592u64));
+return Err(ParseError::ExcludedBranch(17636172564439370608u64));
 }
 };
 let arg1 = {
@@ -30586,7 +30598,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(29850628954056690u64));
+return Err(ParseError::ExcludedBranch(13863787293436782080u64));
 }
 };
 let arg2 = {
@@ -30594,7 +30606,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7279615132236188739u64));
+return Err(ParseError::ExcludedBranch(16714498072262546943u64));
 }
 };
 let arg3 = {
@@ -30602,7 +30614,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17636172564439370608u64));
+return Err(ParseError::ExcludedBranch(2157707350523277837u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30643,7 +30655,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16714498072262546943u64)
+try_sub!(x, 16u64, 14950271805613481359u64)
 },
 
 _ => {
@@ -30805,7 +30817,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15134222038433106385u64)
+try_sub!(x, 16u64, 11265176092564100083u64)
 },
 
 _ => {
@@ -30839,7 +30851,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5499566165243611472u64)
+try_sub!(x, 16u64, 10473830801714814973u64)
 },
 
 _ => {
@@ -31060,7 +31072,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14916894554939814670u64)
+try_sub!(x, 16u64, 16975008930446149745u64)
 },
 
 _ => {
@@ -31174,7 +31186,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5334325531610156978u64)
+try_sub!(x, 16u64, 14363790737598139216u64)
 },
 
 _ => {
@@ -31374,7 +31386,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 760820951392925727u64)
+try_sub!(x, 16u64, 18313399323903636110u64)
 },
 
 _ => {
@@ -31438,7 +31450,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 4600414761378562541u64)
+try_sub!(x, 16u64, 16165934354425559621u64)
 },
 
 _ => {
@@ -31558,7 +31570,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18313399323903636110u64));
+return Err(ParseError::ExcludedBranch(16399036514137665776u64));
 }
 };
 _input.close_peek_context()?;
@@ -31571,7 +31583,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15786118691017431738u64));
+return Err(ParseError::ExcludedBranch(7931358881575056193u64));
 }
 };
 accum.push(next_elem)
@@ -31586,7 +31598,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16165934354425559621u64));
+return Err(ParseError::ExcludedBranch(17863486658382945784u64));
 }
 };
 chars.clone()
@@ -31677,7 +31689,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7931358881575056193u64)
+try_sub!(x, 16u64, 8584109755265226714u64)
 },
 
 _ => {
@@ -31833,7 +31845,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11515797873012483658u64)
+try_sub!(x, 16u64, 11570281271401624317u64)
 },
 
 _ => {
@@ -31897,7 +31909,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8076978189295213982u64)
+try_sub!(x, 16u64, 1378805635639824117u64)
 },
 
 _ => {
@@ -32302,7 +32314,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14687724984806605719u64)
+try_sub!(x, 16u64, 8407356061009412694u64)
 },
 
 _ => {
@@ -32388,7 +32400,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8385173961957899741u64)
+try_sub!(x, 16u64, 13752480002470540422u64)
 },
 
 _ => {
@@ -32632,7 +32644,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8407356061009412694u64));
+return Err(ParseError::ExcludedBranch(17107648091243309207u64));
 }
 };
 _input.close_peek_context()?;
@@ -32645,7 +32657,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6881565717664829242u64));
+return Err(ParseError::ExcludedBranch(5534609128357633386u64));
 }
 };
 accum.push(next_elem)
@@ -32660,7 +32672,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13752480002470540422u64));
+return Err(ParseError::ExcludedBranch(14539762430836305896u64));
 }
 };
 chars.clone()
@@ -32903,7 +32915,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5534609128357633386u64)
+try_sub!(x, 16u64, 2662265345698212949u64)
 },
 
 _ => {
@@ -32987,7 +32999,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 8599210436172030522u64)
 },
 
 _ => {
@@ -33156,7 +33168,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3344648651879382526u64)
+try_sub!(x, 16u64, 15403934492100194569u64)
 },
 
 _ => {
@@ -33211,7 +33223,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3484767027554133518u64)
+try_sub!(x, 16u64, 2288772415159374970u64)
 },
 
 _ => {
@@ -33266,7 +33278,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 12041148194529633639u64)
+try_sub!(x, 16u64, 6279087434444973374u64)
 },
 
 _ => {
@@ -33363,7 +33375,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2288772415159374970u64));
+return Err(ParseError::ExcludedBranch(11074951631636946051u64));
 }
 };
 _input.close_peek_context()?;
@@ -33376,7 +33388,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17888323854924040413u64));
+return Err(ParseError::ExcludedBranch(15601622509425384091u64));
 }
 };
 accum.push(next_elem)
@@ -33391,7 +33403,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6279087434444973374u64));
+return Err(ParseError::ExcludedBranch(13675295148592556047u64));
 }
 };
 chars.clone()
@@ -33413,7 +33425,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11074951631636946051u64));
+return Err(ParseError::ExcludedBranch(4569970360394099475u64));
 }
 };
 _input.close_peek_context()?;
@@ -33426,7 +33438,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15601622509425384091u64));
+return Err(ParseError::ExcludedBranch(9110520999974091875u64));
 }
 };
 accum.push(next_elem)
@@ -33441,7 +33453,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13675295148592556047u64));
+return Err(ParseError::ExcludedBranch(15293691521783146694u64));
 }
 };
 chars.clone()
@@ -33463,7 +33475,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4569970360394099475u64));
+return Err(ParseError::ExcludedBranch(15433822888775103886u64));
 }
 };
 _input.close_peek_context()?;
@@ -33476,7 +33488,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9110520999974091875u64));
+return Err(ParseError::ExcludedBranch(8403192837054512577u64));
 }
 };
 accum.push(next_elem)
@@ -33491,7 +33503,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15293691521783146694u64));
+return Err(ParseError::ExcludedBranch(17073037115051226650u64));
 }
 };
 chars.clone()
@@ -33537,7 +33549,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15433822888775103886u64));
+return Err(ParseError::ExcludedBranch(3975307768385535064u64));
 }
 };
 _input.close_peek_context()?;
@@ -33550,7 +33562,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 }
 };
 accum.push(next_elem)
@@ -33565,7 +33577,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 }
 };
 chars.clone()
@@ -33612,7 +33624,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(12017601628070515145u64));
 }
 };
 _input.close_peek_context()?;
@@ -33625,7 +33637,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(1872233699568519226u64));
 }
 };
 accum.push(next_elem)
@@ -33640,7 +33652,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(10708294527730390829u64));
 }
 };
 chars.clone()
@@ -33667,7 +33679,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(7432469293302627017u64));
 }
 };
 _input.close_peek_context()?;
@@ -33680,7 +33692,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 }
 };
 accum.push(next_elem)
@@ -33695,7 +33707,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(9159119361499271180u64));
 }
 };
 chars.clone()
@@ -33710,7 +33722,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 }
 };
 let marker = {
@@ -33718,7 +33730,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(3490919313637905107u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33873,11 +33885,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 };
 _input.close_peek_context()?;
 ret
@@ -33998,11 +34010,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(15311158871930328757u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(9892894478446917378u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34018,7 +34030,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(3585635225240718191u64));
 }
 }
 };
@@ -34124,11 +34136,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15311158871930328757u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9892894478446917378u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34153,7 +34165,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3585635225240718191u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 }
 };
 let marker = {
@@ -34161,7 +34173,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34184,11 +34196,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34206,7 +34218,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 })
 }
@@ -34304,11 +34316,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34421,7 +34433,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 })
 }
@@ -34487,11 +34499,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34564,7 +34576,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 })
 }
@@ -34669,11 +34681,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34701,7 +34713,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 let marker = {
@@ -34709,7 +34721,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 jpeg_soi { marker }
@@ -34828,11 +34840,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34860,7 +34872,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 let marker = {
@@ -34868,7 +34880,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 };
 jpeg_soi { marker }
@@ -35031,13 +35043,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 };
 _input.close_peek_context()?;
@@ -35142,13 +35154,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 };
 _input.close_peek_context()?;
@@ -35202,7 +35214,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 })
 }
@@ -35222,7 +35234,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 };
 _input.close_peek_context()?;
@@ -35235,7 +35247,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 },
 
@@ -35246,7 +35258,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 };
 let arg1 = {
@@ -35254,7 +35266,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 };
 (arg0, arg1)
@@ -35263,7 +35275,7 @@ return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 })
 }
@@ -35275,7 +35287,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 };
 let marker = {
@@ -35283,7 +35295,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35296,7 +35308,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 };
 let marker = {
@@ -35304,7 +35316,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35317,7 +35329,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 };
 let marker = {
@@ -35325,7 +35337,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35338,7 +35350,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 };
 let marker = {
@@ -35346,7 +35358,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35359,7 +35371,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 }
 };
 let marker = {
@@ -35367,7 +35379,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35380,7 +35392,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 };
 let marker = {
@@ -35388,7 +35400,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35401,7 +35413,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 };
 let marker = {
@@ -35409,7 +35421,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35422,7 +35434,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 };
 let marker = {
@@ -35430,7 +35442,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35447,7 +35459,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3011460078285478248u64));
+return Err(ParseError::FalsifiedWhere(2858990937242709991u64));
 }
 };
 let image_components = {
@@ -35467,7 +35479,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5117297982688264891u64));
+return Err(ParseError::FalsifiedWhere(13162270726566423196u64));
 }
 };
 let end_spectral_selection = {
@@ -35479,7 +35491,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4614223265245060097u64));
+return Err(ParseError::FalsifiedWhere(6766897041260485978u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35516,7 +35528,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2858990937242709991u64));
+return Err(ParseError::FalsifiedWhere(7359082011512182682u64));
 })
 }
 
@@ -35534,7 +35546,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13162270726566423196u64));
+return Err(ParseError::FalsifiedWhere(4005260763079064488u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35688,13 +35700,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 _input.close_peek_context()?;
@@ -35758,7 +35770,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 };
 let marker = {
@@ -35766,7 +35778,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 };
 jpeg_soi { marker }
@@ -35793,7 +35805,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 let marker = {
@@ -35801,7 +35813,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 jpeg_soi { marker }
@@ -35828,7 +35840,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 let marker = {
@@ -35836,7 +35848,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 jpeg_soi { marker }
@@ -35863,7 +35875,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 let marker = {
@@ -35871,7 +35883,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 jpeg_soi { marker }
@@ -35898,7 +35910,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 let marker = {
@@ -35906,7 +35918,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 jpeg_soi { marker }
@@ -35933,7 +35945,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 let marker = {
@@ -35941,7 +35953,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 jpeg_soi { marker }
@@ -35968,7 +35980,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 let marker = {
@@ -35976,7 +35988,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 jpeg_soi { marker }
@@ -36003,7 +36015,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 let marker = {
@@ -36011,7 +36023,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 jpeg_soi { marker }
@@ -36038,7 +36050,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 let marker = {
@@ -36046,7 +36058,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 jpeg_soi { marker }
@@ -36073,7 +36085,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 };
 let marker = {
@@ -36081,7 +36093,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 };
 jpeg_soi { marker }
@@ -36108,7 +36120,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 let marker = {
@@ -36116,7 +36128,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 };
 jpeg_soi { marker }
@@ -36143,7 +36155,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 };
 let marker = {
@@ -36151,7 +36163,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 };
 jpeg_soi { marker }
@@ -36178,7 +36190,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 let marker = {
@@ -36186,7 +36198,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 jpeg_soi { marker }
@@ -36216,7 +36228,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
+return Err(ParseError::FalsifiedWhere(180881308211696508u64));
 }
 };
 let num_lines = {
@@ -36235,7 +36247,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
+return Err(ParseError::FalsifiedWhere(17753230141940491005u64));
 }
 };
 let num_image_components = {
@@ -36247,7 +36259,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
+return Err(ParseError::FalsifiedWhere(6110942357212830202u64));
 }
 };
 let image_components = {
@@ -36279,7 +36291,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(180881308211696508u64));
+return Err(ParseError::FalsifiedWhere(6596410053543851077u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36293,7 +36305,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 let marker = {
@@ -36301,7 +36313,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 jpeg_soi { marker }
@@ -36352,7 +36364,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 let marker = {
@@ -36360,7 +36372,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 jpeg_soi { marker }
@@ -36387,7 +36399,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 let marker = {
@@ -36395,7 +36407,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 jpeg_soi { marker }
@@ -36422,7 +36434,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 let marker = {
@@ -36430,7 +36442,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 jpeg_soi { marker }
@@ -36457,7 +36469,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 let marker = {
@@ -36465,7 +36477,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 jpeg_soi { marker }
@@ -36492,7 +36504,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 let marker = {
@@ -36500,7 +36512,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 jpeg_soi { marker }
@@ -36527,7 +36539,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 let marker = {
@@ -36535,7 +36547,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 jpeg_soi { marker }
@@ -36582,7 +36594,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 let marker = {
@@ -36590,7 +36602,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 jpeg_soi { marker }
@@ -36637,7 +36649,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 let marker = {
@@ -36645,7 +36657,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 jpeg_soi { marker }
@@ -36692,7 +36704,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 let marker = {
@@ -36700,7 +36712,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 jpeg_soi { marker }
@@ -36747,7 +36759,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 let marker = {
@@ -36755,7 +36767,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 jpeg_soi { marker }
@@ -36802,7 +36814,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 let marker = {
@@ -36810,7 +36822,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 jpeg_soi { marker }
@@ -36857,7 +36869,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 let marker = {
@@ -36865,7 +36877,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 jpeg_soi { marker }
@@ -36912,7 +36924,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 let marker = {
@@ -36920,7 +36932,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 jpeg_soi { marker }
@@ -36967,7 +36979,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 let marker = {
@@ -36975,7 +36987,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 jpeg_soi { marker }
@@ -37022,7 +37034,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 let marker = {
@@ -37030,7 +37042,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 jpeg_soi { marker }
@@ -37077,7 +37089,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 let marker = {
@@ -37085,7 +37097,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 jpeg_soi { marker }
@@ -37132,7 +37144,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 let marker = {
@@ -37140,7 +37152,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 jpeg_soi { marker }
@@ -37187,7 +37199,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 let marker = {
@@ -37195,7 +37207,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 jpeg_soi { marker }
@@ -37242,7 +37254,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 let marker = {
@@ -37250,7 +37262,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 jpeg_soi { marker }
@@ -37297,7 +37309,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 let marker = {
@@ -37305,7 +37317,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 jpeg_soi { marker }
@@ -37363,7 +37375,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 _input.close_peek_context()?;
@@ -37376,7 +37388,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 accum.push(next_elem)
@@ -37391,7 +37403,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 chars.clone()
@@ -37447,7 +37459,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37499,7 +37511,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 _input.close_peek_context()?;
@@ -37512,7 +37524,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 accum.push(next_elem)
@@ -37527,7 +37539,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 chars.clone()
@@ -37584,7 +37596,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4491050975676636472u64));
+return Err(ParseError::FalsifiedWhere(1125515999835788388u64));
 }
 };
 let density_x = {
@@ -37599,7 +37611,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9933460716242958610u64));
+return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
 }
 };
 let density_y = {
@@ -37614,7 +37626,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10865781264025109219u64));
+return Err(ParseError::FalsifiedWhere(10349067556055585673u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37676,7 +37688,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1125515999835788388u64));
+return Err(ParseError::FalsifiedWhere(9276145871181842621u64));
 })
 }
 
@@ -37731,7 +37743,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
+return Err(ParseError::FalsifiedWhere(16224083238566163922u64));
 })
 }
 
@@ -37789,7 +37801,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 _input.close_peek_context()?;
@@ -37802,7 +37814,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 accum.push(next_elem)
@@ -37817,7 +37829,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37842,7 +37854,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 _input.close_peek_context()?;
@@ -37855,7 +37867,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 accum.push(next_elem)
@@ -37870,7 +37882,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 chars.clone()
@@ -37957,7 +37969,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 _input.close_peek_context()?;
@@ -37985,7 +37997,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 accum.push(next_elem)
@@ -38014,7 +38026,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 accum.push(next_elem)
@@ -38045,7 +38057,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 _input.close_peek_context()?;
@@ -38058,7 +38070,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 accum.push(next_elem)
@@ -38073,7 +38085,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38098,7 +38110,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 _input.close_peek_context()?;
@@ -38111,7 +38123,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 accum.push(next_elem)
@@ -38126,7 +38138,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 chars.clone()
@@ -38142,7 +38154,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 let arg1 = {
@@ -38150,7 +38162,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 let arg2 = {
@@ -38158,7 +38170,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38208,7 +38220,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 }
 },
@@ -38218,7 +38230,7 @@ return Err(ParseError::ExcludedBranch(389354767835086292u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 _input.close_peek_context()?;
@@ -38237,7 +38249,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 })
 }
@@ -38249,7 +38261,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38273,7 +38285,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 }
 },
@@ -38283,7 +38295,7 @@ return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 };
 _input.close_peek_context()?;
@@ -38300,7 +38312,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 }
 };
@@ -38325,11 +38337,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38347,7 +38359,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 })
 }
@@ -38359,7 +38371,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 let label = {
@@ -38367,7 +38379,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 let block_size = {
@@ -38375,7 +38387,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 let identifier = {
@@ -38403,7 +38415,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 _input.close_peek_context()?;
@@ -38430,7 +38442,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 let label = {
@@ -38438,7 +38450,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 let comment_data = {
@@ -38457,7 +38469,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 _input.close_peek_context()?;
@@ -38484,7 +38496,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 let data = {
@@ -38504,7 +38516,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 })
 }
 
@@ -38515,7 +38527,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 let label = {
@@ -38523,7 +38535,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 let block_size = {
@@ -38531,7 +38543,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38559,7 +38571,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 _input.close_peek_context()?;
@@ -38578,7 +38590,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 })
 }
@@ -38607,7 +38619,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 let label = {
@@ -38615,7 +38627,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 let block_size = {
@@ -38623,7 +38635,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 let text_grid_left_position = {
@@ -38662,7 +38674,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 _input.close_peek_context()?;
@@ -38689,7 +38701,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 let image_left_position = {
@@ -38739,7 +38751,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 _input.close_peek_context()?;
@@ -38871,55 +38883,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 };
 _input.close_peek_context()?;
@@ -38934,7 +38946,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 };
 accum.push(next_elem)
@@ -38947,7 +38959,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 (arg0, arg1)
@@ -38975,7 +38987,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39008,7 +39020,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7245983875345631298u64));
+return Err(ParseError::FalsifiedWhere(8635718010611311692u64));
 }
 };
 let num_image_components = {
@@ -39020,7 +39032,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9556673179043043550u64));
+return Err(ParseError::FalsifiedWhere(16026689348257499085u64));
 }
 };
 let image_components = {
@@ -39043,7 +39055,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39065,7 +39077,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8635718010611311692u64));
+return Err(ParseError::FalsifiedWhere(10986984519025233593u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39079,7 +39091,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 let marker = {
@@ -39087,7 +39099,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 jpeg_soi { marker }
@@ -39134,7 +39146,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 let marker = {
@@ -39142,7 +39154,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 };
 jpeg_soi { marker }
@@ -39180,7 +39192,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15243788729772203041u64));
+return Err(ParseError::FalsifiedWhere(13586715084946654863u64));
 }
 };
 let num_image_components = {
@@ -39192,7 +39204,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14565187915810837879u64));
+return Err(ParseError::FalsifiedWhere(10796441316268123402u64));
 }
 };
 let image_components = {
@@ -39214,7 +39226,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 };
 let marker = {
@@ -39222,7 +39234,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 jpeg_soi { marker }
@@ -39257,7 +39269,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10796441316268123402u64));
+return Err(ParseError::FalsifiedWhere(13415341611905239200u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
-- 
2.43.0


From 76edfb0f489260acac55961c5715c628b6d113d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 26/46] fix: dynamic deflate blocks refuse code lengths that
 run past the two alphabets

---
 doodle-formats/src/format/deflate.rs |   16 +-
 generated/gencode.rs                 | 1002 +++++++++++++-------------
 2 files changed, 522 insertions(+), 496 deletions(-)

diff --git a/doodle-formats/src/format/deflate.rs b/doodle-formats/src/format/deflate.rs
index 38709a0..8b9e635 100644
--- a/doodle-formats/src/format/deflate.rs
+++ b/doodle-formats/src/format/deflate.rs
@@ -691,7 +691,7 @@ pub fn main(module: &mut FormatModule) -> FormatRef {
 
     let dynamic_huffman = module.define_format(
         "deflate.dynamic_huffman",
-        record([
+        record_auto([
             ("hlit", bits5.clone()),
             ("hdist", bits5.clone()),
             ("hclen", bits4.clone()),
@@ -769,6 +769,20 @@ pub fn main(module: &mut FormatModule) -> FormatRef {
                     var("literal-length-distance-alphabet-code-lengths"),
                 )),
             ),
+            (
+                // the last repeat-code may not run past the end of the two alphabets
+                "__code-lengths-total",
+                where_lambda(
+                    compute(seq_length(var(
+                        "literal-length-distance-alphabet-code-lengths-value",
+                    ))),
+                    "total",
+                    expr_eq(
+                        var("total"),
+                        add(as_u32(add(var("hlit"), var("hdist"))), Expr::U32(258)),
+                    ),
+                ),
+            ),
             (
                 "literal-length-alphabet-code-lengths-value",
                 compute(sub_seq(
diff --git a/generated/gencode.rs b/generated/gencode.rs
index fa63e20..ce72628 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -15482,6 +15482,18 @@ v => {
 }
 }
 })))?;
+{
+let inner = (literal_length_distance_alphabet_code_lengths_value.len()) as u32;
+let is_valid = {
+let total = inner;
+total == ((hlit + hdist) as u32) + 258u32
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(6347242493551283856u64));
+}
+};
 let literal_length_alphabet_code_lengths_value = {
 let ix = 0u32 as usize;
 Vec::from(&literal_length_distance_alphabet_code_lengths_value[ix..(ix + (((hlit as u32) + 257u32) as usize))])
@@ -15887,7 +15899,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4251627061094365437u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 }))
 },
@@ -16039,7 +16051,7 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(11915580511665106140u64));
+return Err(ParseError::FailToken(17324980155911269375u64));
 },
 
 _other => {
@@ -16174,7 +16186,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17324980155911269375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17670535809278048255u64));
 inner
 }
 };
@@ -16240,7 +16252,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17670535809278048255u64));
+return Err(ParseError::FalsifiedWhere(2444204717155307095u64));
 }
 };
 let variation_regions = {
@@ -16413,7 +16425,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2444204717155307095u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1278184758971178969u64));
 inner
 }
 };
@@ -16497,7 +16509,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1278184758971178969u64));
+return Err(ParseError::FalsifiedWhere(4480225125687487743u64));
 }
 };
 let tuple_variation_headers = {
@@ -16690,7 +16702,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11250208753083412758u64));
+return Err(ParseError::ExcludedBranch(17349123374714965876u64));
 }
 };
 _input.close_peek_context()?;
@@ -16704,7 +16716,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4480225125687487743u64));
+return Err(ParseError::ExcludedBranch(12879845237981630531u64));
 }
 };
 (0u16, [].to_vec())
@@ -16716,7 +16728,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12879845237981630531u64));
+return Err(ParseError::ExcludedBranch(3426398976290336157u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16728,7 +16740,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3426398976290336157u64));
+return Err(ParseError::ExcludedBranch(11250208753083412758u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16736,7 +16748,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17349123374714965876u64));
+return Err(ParseError::ExcludedBranch(2153064741293804702u64));
 }
 })
 }
@@ -16866,7 +16878,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2153064741293804702u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
 inner
 }
 };
@@ -17015,7 +17027,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3249387167439447765u64));
 inner
 }
 };
@@ -17031,7 +17043,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3249387167439447765u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
 inner
 }
 };
@@ -17087,7 +17099,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8700288293163706751u64));
 inner
 }
 };
@@ -17103,7 +17115,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8700288293163706751u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16771529512960957239u64));
 inner
 }
 };
@@ -17245,7 +17257,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16771529512960957239u64));
+return Err(ParseError::FalsifiedWhere(13846498452079501214u64));
 }
 };
 let table_scope = table_view;
@@ -17261,7 +17273,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13846498452079501214u64));
+return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
 }
 };
 let extension_offset = {
@@ -17314,11 +17326,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(9798710097031164942u64));
+return Err(ParseError::FailToken(9819345728844658158u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(9819345728844658158u64));
+return Err(ParseError::FailToken(18279137173405083757u64));
 }
 })
 }
@@ -17342,7 +17354,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(18279137173405083757u64));
+return Err(ParseError::FailToken(14954891776835932150u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17411,7 +17423,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14954891776835932150u64));
+return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
 }
 };
 let coverage = {
@@ -17460,7 +17472,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
+return Err(ParseError::FalsifiedWhere(14984809111992638634u64));
 }
 };
 let coverage = {
@@ -17518,7 +17530,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14984809111992638634u64));
+return Err(ParseError::FailToken(9342187932533045817u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17549,7 +17561,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9342187932533045817u64));
+return Err(ParseError::FailToken(13404710972790825894u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17570,7 +17582,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
+return Err(ParseError::FalsifiedWhere(2688427941405105545u64));
 }
 };
 let table_scope = table_view;
@@ -17701,7 +17713,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(2688427941405105545u64));
+return Err(ParseError::FailToken(6279463968646665849u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17949,7 +17961,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6279463968646665849u64));
+return Err(ParseError::FailToken(10875553067752207222u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18191,7 +18203,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(11323981950571132721u64));
 }
 };
 let seq_lookup_count = {
@@ -18429,7 +18441,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11323981950571132721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1179945139148562335u64));
 inner
 }
 };
@@ -18578,7 +18590,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1179945139148562335u64));
+return Err(ParseError::FalsifiedWhere(3270685119814653163u64));
 }
 };
 let table_scope = table_view;
@@ -18594,7 +18606,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3270685119814653163u64));
+return Err(ParseError::FalsifiedWhere(6821845925776570829u64));
 }
 };
 let extension_offset = {
@@ -18652,11 +18664,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(6821845925776570829u64));
+return Err(ParseError::FailToken(15898809900392744567u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(15898809900392744567u64));
+return Err(ParseError::FailToken(5653230390980289841u64));
 }
 })
 }
@@ -18680,7 +18692,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(5653230390980289841u64));
+return Err(ParseError::FailToken(9179996462972575343u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18705,7 +18717,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9179996462972575343u64));
+return Err(ParseError::FailToken(3675496117133668659u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18726,7 +18738,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
+return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
 }
 };
 let table_scope = table_view;
@@ -18768,7 +18780,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
+return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
 }
 };
 let table_scope = table_view;
@@ -18827,7 +18839,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
+return Err(ParseError::FalsifiedWhere(10310785543736156275u64));
 }
 };
 let mark_coverage = {
@@ -18884,7 +18896,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10310785543736156275u64));
+return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
 }
 };
 let table_scope = table_view;
@@ -19042,7 +19054,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16594239496794104967u64));
+return Err(ParseError::FailToken(16529910322175208638u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19190,7 +19202,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16529910322175208638u64));
+return Err(ParseError::ExcludedBranch(12187643960709778443u64));
 }
 };
 let arg1 = {
@@ -19198,7 +19210,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12187643960709778443u64));
+return Err(ParseError::ExcludedBranch(8766708729375264031u64));
 }
 };
 (arg0, arg1)
@@ -20136,7 +20148,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8766708729375264031u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1369437808023015077u64));
 inner
 }
 };
@@ -20227,7 +20239,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(1369437808023015077u64));
+return Err(ParseError::FailToken(163858356033350300u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20476,7 +20488,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(163858356033350300u64));
+return Err(ParseError::FailToken(888161872995526095u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20540,7 +20552,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(888161872995526095u64));
+return Err(ParseError::FailToken(4770836931378141069u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21189,7 +21201,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4770836931378141069u64));
+return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
 }
 };
 let max_twilight_points = {
@@ -21232,7 +21244,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
+return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21351,7 +21363,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3595277668730903043u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
 inner
 }
 };
@@ -21376,7 +21388,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12530712830475607577u64));
 inner
 }
 };
@@ -21419,7 +21431,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12530712830475607577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
 inner
 }
 };
@@ -21434,7 +21446,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1386817607731947864u64));
+return Err(ParseError::FalsifiedWhere(4795509455376621436u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21455,7 +21467,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4795509455376621436u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
 inner
 }
 };
@@ -21471,7 +21483,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3923207427992258326u64));
+return Err(ParseError::FalsifiedWhere(5174369311102857850u64));
 }
 };
 let language = {
@@ -21592,7 +21604,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
 inner
 }
 };
@@ -21617,7 +21629,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
 inner
 }
 };
@@ -21671,7 +21683,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
 inner
 }
 };
@@ -21752,7 +21764,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
 inner
 }
 };
@@ -21803,7 +21815,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
 inner
 }
 };
@@ -21819,7 +21831,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
 inner
 }
 };
@@ -21844,7 +21856,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
 inner
 }
 };
@@ -21860,7 +21872,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -21915,7 +21927,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -21931,7 +21943,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
 inner
 }
 };
@@ -21956,7 +21968,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
 inner
 }
 };
@@ -21972,7 +21984,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
 inner
 }
 };
@@ -22026,7 +22038,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -22042,7 +22054,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -22067,7 +22079,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -22083,7 +22095,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -22130,7 +22142,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -22146,7 +22158,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -22171,7 +22183,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -22187,7 +22199,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -22234,7 +22246,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -22259,7 +22271,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -22426,7 +22438,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5159371628350638829u64));
+return Err(ParseError::FalsifiedWhere(7762269623995317946u64));
 })
 }
 
@@ -22612,7 +22624,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7762269623995317946u64));
+return Err(ParseError::ExcludedBranch(16134612799304961491u64));
 }
 };
 let arg1 = {
@@ -22620,7 +22632,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16134612799304961491u64));
+return Err(ParseError::ExcludedBranch(5308477118997970057u64));
 }
 };
 let arg2 = {
@@ -22628,7 +22640,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5308477118997970057u64));
+return Err(ParseError::ExcludedBranch(16190528142421852545u64));
 }
 };
 let arg3 = {
@@ -22636,7 +22648,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16190528142421852545u64));
+return Err(ParseError::ExcludedBranch(173922233423713068u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22668,7 +22680,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(173922233423713068u64));
+return Err(ParseError::ExcludedBranch(12540117573097456360u64));
 }
 };
 accum.push(next_elem)
@@ -22691,7 +22703,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
+return Err(ParseError::FalsifiedWhere(515819609734101411u64));
 })
 }
 
@@ -22710,7 +22722,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(515819609734101411u64));
+return Err(ParseError::FalsifiedWhere(9277543013594125416u64));
 })
 }
 
@@ -22740,7 +22752,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9277543013594125416u64));
+return Err(ParseError::FalsifiedWhere(5955168674639093440u64));
 })
 }
 
@@ -22754,7 +22766,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5955168674639093440u64));
+return Err(ParseError::FalsifiedWhere(4471438437047399494u64));
 })
 }
 
@@ -22768,7 +22780,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4471438437047399494u64));
+return Err(ParseError::FalsifiedWhere(13319523888327217639u64));
 })
 }
 
@@ -22829,7 +22841,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13319523888327217639u64));
+return Err(ParseError::ExcludedBranch(824589811577025210u64));
 }
 };
 _input.close_peek_context()?;
@@ -22842,7 +22854,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(824589811577025210u64));
+return Err(ParseError::ExcludedBranch(4649034608147552416u64));
 }
 };
 accum.push(next_elem)
@@ -22875,7 +22887,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4649034608147552416u64));
+return Err(ParseError::ExcludedBranch(16096650375442290768u64));
 }
 };
 accum.push(next_elem)
@@ -22910,7 +22922,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(14339975513692068616u64));
 }
 };
 _input.close_peek_context()?;
@@ -22923,7 +22935,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 }
 };
 accum.push(next_elem)
@@ -22956,7 +22968,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 }
 };
 accum.push(next_elem)
@@ -22991,7 +23003,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(12668500753644823654u64));
 }
 };
 _input.close_peek_context()?;
@@ -23004,7 +23016,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12668500753644823654u64));
+return Err(ParseError::ExcludedBranch(8094248233631264621u64));
 }
 };
 accum.push(next_elem)
@@ -23037,7 +23049,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8094248233631264621u64));
+return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 }
 };
 accum.push(next_elem)
@@ -23060,10 +23072,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(4839194687019048322u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7230273548678969972u64)
+try_sub!(bit as u8, 48u8, 14903563845775542749u64)
 };
 let _o9 = {
 let bit = {
@@ -23071,10 +23083,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14903563845775542749u64));
+return Err(ParseError::ExcludedBranch(1969670610881234889u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9038350950373664822u64)
+try_sub!(bit as u8, 48u8, 7281717462557989541u64)
 };
 let _o8 = {
 let bit = {
@@ -23082,10 +23094,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7281717462557989541u64));
+return Err(ParseError::ExcludedBranch(15510952803379905659u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14681668243282477517u64)
+try_sub!(bit as u8, 48u8, 6209434968043366837u64)
 };
 let _o7 = {
 let bit = {
@@ -23093,10 +23105,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6209434968043366837u64));
+return Err(ParseError::ExcludedBranch(16474038368490899078u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12217686503432178884u64)
+try_sub!(bit as u8, 48u8, 8399572043096922156u64)
 };
 let _o6 = {
 let bit = {
@@ -23104,10 +23116,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(7832192330748800109u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9815657591077818003u64)
+try_sub!(bit as u8, 48u8, 2197379665604321609u64)
 };
 let _o5 = {
 let bit = {
@@ -23115,10 +23127,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(16624020278885696461u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14485842416732585139u64)
+try_sub!(bit as u8, 48u8, 8179432974518885725u64)
 };
 let _o4 = {
 let bit = {
@@ -23126,10 +23138,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8179432974518885725u64));
+return Err(ParseError::ExcludedBranch(5152282179373241998u64));
 }
 };
-try_sub!(bit as u8, 48u8, 13780055874544357936u64)
+try_sub!(bit as u8, 48u8, 16909208071962620789u64)
 };
 let _o3 = {
 let bit = {
@@ -23137,10 +23149,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16909208071962620789u64));
+return Err(ParseError::ExcludedBranch(7933266403838225878u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12100308281236296642u64)
+try_sub!(bit as u8, 48u8, 9041056097467752267u64)
 };
 let _o2 = {
 let bit = {
@@ -23148,10 +23160,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9041056097467752267u64));
+return Err(ParseError::ExcludedBranch(5025197102194587315u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3810055094392728880u64)
+try_sub!(bit as u8, 48u8, 15252450768049745444u64)
 };
 let _o1 = {
 let bit = {
@@ -23159,10 +23171,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15252450768049745444u64));
+return Err(ParseError::ExcludedBranch(5599331855309773603u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16437491640759399344u64)
+try_sub!(bit as u8, 48u8, 2988545765690796708u64)
 };
 let _o0 = {
 let bit = {
@@ -23170,10 +23182,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2988545765690796708u64));
+return Err(ParseError::ExcludedBranch(6215067399528787845u64));
 }
 };
-try_sub!(bit as u8, 48u8, 17176374570344757031u64)
+try_sub!(bit as u8, 48u8, 3566920116549027235u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23201,7 +23213,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3566920116549027235u64));
+return Err(ParseError::ExcludedBranch(7979287392867129207u64));
 }
 };
 _input.close_peek_context()?;
@@ -23214,7 +23226,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(3653195934333285574u64));
 }
 };
 accum.push(next_elem)
@@ -23247,7 +23259,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3653195934333285574u64));
+return Err(ParseError::ExcludedBranch(16671136947067655757u64));
 }
 };
 accum.push(next_elem)
@@ -23282,7 +23294,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16671136947067655757u64));
+return Err(ParseError::ExcludedBranch(10721249873135158334u64));
 }
 };
 _input.close_peek_context()?;
@@ -23295,7 +23307,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(8898504689444561451u64));
 }
 };
 accum.push(next_elem)
@@ -23328,7 +23340,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8898504689444561451u64));
+return Err(ParseError::ExcludedBranch(441240706992005484u64));
 }
 };
 accum.push(next_elem)
@@ -23357,7 +23369,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(441240706992005484u64));
+return Err(ParseError::ExcludedBranch(3950014938140253048u64));
 }
 };
 let arg1 = {
@@ -23365,7 +23377,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(10046433636842398056u64));
 }
 };
 let arg2 = {
@@ -23373,7 +23385,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10046433636842398056u64));
+return Err(ParseError::ExcludedBranch(11079395374415646537u64));
 }
 };
 let arg3 = {
@@ -23381,7 +23393,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11079395374415646537u64));
+return Err(ParseError::ExcludedBranch(757122060916971772u64));
 }
 };
 let arg4 = {
@@ -23389,7 +23401,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(5986772336072340665u64));
 }
 };
 let arg5 = {
@@ -23397,7 +23409,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5986772336072340665u64));
+return Err(ParseError::ExcludedBranch(8812292064350598352u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23408,7 +23420,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8812292064350598352u64));
+return Err(ParseError::ExcludedBranch(10645729856418057640u64));
 }
 };
 let arg1 = {
@@ -23416,7 +23428,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(2908689796368760670u64));
 }
 };
 (arg0, arg1)
@@ -23455,7 +23467,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2908689796368760670u64));
+return Err(ParseError::ExcludedBranch(4316175446384649956u64));
 }
 };
 _input.close_peek_context()?;
@@ -23468,7 +23480,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4316175446384649956u64));
+return Err(ParseError::ExcludedBranch(13311790038092155306u64));
 }
 };
 accum.push(next_elem)
@@ -23501,7 +23513,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(4598583460226006268u64));
 }
 };
 accum.push(next_elem)
@@ -23536,7 +23548,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 _input.close_peek_context()?;
@@ -23549,7 +23561,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 accum.push(next_elem)
@@ -23582,7 +23594,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 }
 };
 accum.push(next_elem)
@@ -23612,7 +23624,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 accum.push(next_elem)
@@ -23643,7 +23655,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 _input.close_peek_context()?;
@@ -23662,7 +23674,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 accum.push(next_elem)
@@ -23692,7 +23704,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 accum.push(next_elem)
@@ -23711,7 +23723,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 })
 }
 
@@ -23733,7 +23745,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 _input.close_peek_context()?;
@@ -23746,7 +23758,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 accum.push(next_elem)
@@ -23778,7 +23790,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 accum.push(next_elem)
@@ -23809,7 +23821,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 _input.close_peek_context()?;
@@ -23822,7 +23834,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 accum.push(next_elem)
@@ -23860,7 +23872,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 accum.push(next_elem)
@@ -23886,7 +23898,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1029952099207838423u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 _input.close_peek_context()?;
@@ -23900,7 +23912,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 let arg1 = {
@@ -23908,7 +23920,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23920,7 +23932,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 let arg1 = {
@@ -23928,14 +23940,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17327099206515189757u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 })
 }
@@ -24144,7 +24156,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14652068248613900169u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 })
 } else {
 None
@@ -24166,7 +24178,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3089242474000390105u64));
+return Err(ParseError::FalsifiedWhere(8785324329127396734u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24198,7 +24210,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8785324329127396734u64));
+return Err(ParseError::FalsifiedWhere(14646838598150249928u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24330,7 +24342,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14646838598150249928u64));
+return Err(ParseError::FalsifiedWhere(14949659785259585833u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24364,7 +24376,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14949659785259585833u64));
+return Err(ParseError::FalsifiedWhere(562280208679883345u64));
 }
 };
 let flags = {
@@ -24407,7 +24419,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(562280208679883345u64));
+return Err(ParseError::FalsifiedWhere(1426091679331900812u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24425,7 +24437,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 let arg1 = {
@@ -24433,7 +24445,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 let arg2 = {
@@ -24441,7 +24453,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 let arg3 = {
@@ -24449,7 +24461,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24462,7 +24474,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 let arg1 = {
@@ -24470,7 +24482,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 let arg2 = {
@@ -24478,7 +24490,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 let arg3 = {
@@ -24486,7 +24498,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24528,7 +24540,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 };
 let arg1 = {
@@ -24536,7 +24548,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 }
 };
 let arg2 = {
@@ -24544,7 +24556,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(14571733789425208869u64));
 }
 };
 let arg3 = {
@@ -24552,7 +24564,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(6611121695530188940u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24576,7 +24588,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(9660375186237087060u64));
 }
 };
 let arg1 = {
@@ -24584,7 +24596,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9660375186237087060u64));
+return Err(ParseError::ExcludedBranch(11684704871632490773u64));
 }
 };
 let arg2 = {
@@ -24592,7 +24604,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11684704871632490773u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 }
 };
 let arg3 = {
@@ -24600,7 +24612,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24631,7 +24643,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9710347097769530785u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 };
 accum.push(next_elem)
@@ -24793,7 +24805,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 }
 };
 val.clone()
@@ -24803,7 +24815,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24878,7 +24890,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5869833854865239916u64));
+return Err(ParseError::FalsifiedWhere(13372240079418200167u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24893,7 +24905,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 val.clone()
@@ -24903,7 +24915,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 let compression_method = {
@@ -24911,7 +24923,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 let language_tag = {
@@ -24931,7 +24943,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 _input.close_peek_context()?;
@@ -24944,7 +24956,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 accum.push(next_elem)
@@ -24959,7 +24971,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 chars.clone()
@@ -24971,7 +24983,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 val.clone()
@@ -25058,7 +25070,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 val.clone()
@@ -25096,7 +25108,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 val.clone()
@@ -25106,7 +25118,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 let compressed_text = {
@@ -25247,7 +25259,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 };
 val.clone()
@@ -25257,7 +25269,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 };
 let palette = match sample_depth {
@@ -25848,12 +25860,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
@@ -26319,6 +26325,12 @@ return Err(ParseError::ExcludedBranch(15301408058960503169u64));
 _ => {
 return Err(ParseError::ExcludedBranch(4255813677013328811u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(7761201277159812979u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -26332,7 +26344,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7761201277159812979u64));
+return Err(ParseError::ExcludedBranch(15409834313606096443u64));
 }
 };
 accum.push(next_elem)
@@ -26825,12 +26837,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(15409834313606096443u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(7572218778908935167u64));
 }
@@ -27296,6 +27302,12 @@ return Err(ParseError::ExcludedBranch(2734069901426030304u64));
 _ => {
 return Err(ParseError::ExcludedBranch(8313738771561634204u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5782291498890001703u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -27309,7 +27321,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5782291498890001703u64));
+return Err(ParseError::ExcludedBranch(10699246393255895644u64));
 }
 };
 accum.push(next_elem)
@@ -27334,7 +27346,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10699246393255895644u64));
+return Err(ParseError::FalsifiedWhere(16725113430369695556u64));
 }
 };
 let flags = {
@@ -27847,12 +27859,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(16725113430369695556u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(10581544802310072854u64));
 }
@@ -28318,6 +28324,12 @@ return Err(ParseError::ExcludedBranch(1862457564087794359u64));
 _ => {
 return Err(ParseError::ExcludedBranch(4725257428709613290u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(11823569341425521789u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -28331,7 +28343,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11823569341425521789u64));
+return Err(ParseError::ExcludedBranch(14474361861190022573u64));
 }
 };
 accum.push(next_elem)
@@ -28824,12 +28836,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(14474361861190022573u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(8440332211549640930u64));
 }
@@ -29295,6 +29301,12 @@ return Err(ParseError::ExcludedBranch(16604650314446872341u64));
 _ => {
 return Err(ParseError::ExcludedBranch(14275129881911283147u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -29308,7 +29320,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+return Err(ParseError::ExcludedBranch(9532564966458988001u64));
 }
 };
 accum.push(next_elem)
@@ -29366,7 +29378,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+return Err(ParseError::ExcludedBranch(1456571545446476568u64));
 }
 };
 _input.close_peek_context()?;
@@ -29399,7 +29411,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1456571545446476568u64));
+return Err(ParseError::FalsifiedWhere(14908888453225293887u64));
 }
 };
 let flags = {
@@ -29473,7 +29485,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14908888453225293887u64));
+return Err(ParseError::ExcludedBranch(4384065895993710795u64));
 }
 };
 _input.close_peek_context()?;
@@ -29544,7 +29556,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4384065895993710795u64));
+return Err(ParseError::ExcludedBranch(14063858022942822585u64));
 }
 };
 _input.close_peek_context()?;
@@ -30045,12 +30057,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(14063858022942822585u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(7083101893872508858u64));
 }
@@ -30516,6 +30522,12 @@ return Err(ParseError::ExcludedBranch(6882184431082022206u64));
 _ => {
 return Err(ParseError::ExcludedBranch(3998072683184925592u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(29850628954056690u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -30529,7 +30541,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(29850628954056690u64));
+return Err(ParseError::ExcludedBranch(7279615132236188739u64));
 }
 };
 accum.push(next_elem)
@@ -30554,7 +30566,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7279615132236188739u64));
+return Err(ParseError::FalsifiedWhere(17636172564439370608u64));
 }
 };
 let flags = {
@@ -30590,7 +30602,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17636172564439370608u64));
+return Err(ParseError::ExcludedBranch(13863787293436782080u64));
 }
 };
 let arg1 = {
@@ -30598,7 +30610,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13863787293436782080u64));
+return Err(ParseError::ExcludedBranch(16714498072262546943u64));
 }
 };
 let arg2 = {
@@ -30606,7 +30618,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16714498072262546943u64));
+return Err(ParseError::ExcludedBranch(2157707350523277837u64));
 }
 };
 let arg3 = {
@@ -30614,7 +30626,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2157707350523277837u64));
+return Err(ParseError::ExcludedBranch(15134222038433106385u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30655,7 +30667,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14950271805613481359u64)
+try_sub!(x, 16u64, 5499566165243611472u64)
 },
 
 _ => {
@@ -30817,7 +30829,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11265176092564100083u64)
+try_sub!(x, 16u64, 14916894554939814670u64)
 },
 
 _ => {
@@ -30851,7 +30863,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 10473830801714814973u64)
+try_sub!(x, 16u64, 5334325531610156978u64)
 },
 
 _ => {
@@ -31072,7 +31084,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16975008930446149745u64)
+try_sub!(x, 16u64, 760820951392925727u64)
 },
 
 _ => {
@@ -31186,7 +31198,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14363790737598139216u64)
+try_sub!(x, 16u64, 4600414761378562541u64)
 },
 
 _ => {
@@ -31386,7 +31398,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 18313399323903636110u64)
+try_sub!(x, 16u64, 15786118691017431738u64)
 },
 
 _ => {
@@ -31450,7 +31462,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16165934354425559621u64)
+try_sub!(x, 16u64, 16399036514137665776u64)
 },
 
 _ => {
@@ -31570,7 +31582,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16399036514137665776u64));
+return Err(ParseError::ExcludedBranch(7931358881575056193u64));
 }
 };
 _input.close_peek_context()?;
@@ -31583,7 +31595,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7931358881575056193u64));
+return Err(ParseError::ExcludedBranch(17863486658382945784u64));
 }
 };
 accum.push(next_elem)
@@ -31598,7 +31610,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17863486658382945784u64));
+return Err(ParseError::ExcludedBranch(11515797873012483658u64));
 }
 };
 chars.clone()
@@ -31689,7 +31701,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8584109755265226714u64)
+try_sub!(x, 16u64, 8076978189295213982u64)
 },
 
 _ => {
@@ -31845,7 +31857,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11570281271401624317u64)
+try_sub!(x, 16u64, 14687724984806605719u64)
 },
 
 _ => {
@@ -31909,7 +31921,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 1378805635639824117u64)
+try_sub!(x, 16u64, 8385173961957899741u64)
 },
 
 _ => {
@@ -32314,7 +32326,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8407356061009412694u64)
+try_sub!(x, 16u64, 6881565717664829242u64)
 },
 
 _ => {
@@ -32400,7 +32412,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 13752480002470540422u64)
+try_sub!(x, 16u64, 17107648091243309207u64)
 },
 
 _ => {
@@ -32644,7 +32656,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17107648091243309207u64));
+return Err(ParseError::ExcludedBranch(5534609128357633386u64));
 }
 };
 _input.close_peek_context()?;
@@ -32657,7 +32669,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5534609128357633386u64));
+return Err(ParseError::ExcludedBranch(14539762430836305896u64));
 }
 };
 accum.push(next_elem)
@@ -32672,7 +32684,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14539762430836305896u64));
+return Err(ParseError::ExcludedBranch(16625761205375889740u64));
 }
 };
 chars.clone()
@@ -32915,7 +32927,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 2662265345698212949u64)
+try_sub!(x, 16u64, 3344648651879382526u64)
 },
 
 _ => {
@@ -32999,7 +33011,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8599210436172030522u64)
+try_sub!(x, 16u64, 3484767027554133518u64)
 },
 
 _ => {
@@ -33168,7 +33180,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15403934492100194569u64)
+try_sub!(x, 16u64, 12041148194529633639u64)
 },
 
 _ => {
@@ -33223,7 +33235,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 2288772415159374970u64)
+try_sub!(x, 16u64, 17888323854924040413u64)
 },
 
 _ => {
@@ -33278,7 +33290,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 6279087434444973374u64)
+try_sub!(x, 16u64, 11074951631636946051u64)
 },
 
 _ => {
@@ -33375,7 +33387,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11074951631636946051u64));
+return Err(ParseError::ExcludedBranch(15601622509425384091u64));
 }
 };
 _input.close_peek_context()?;
@@ -33388,7 +33400,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15601622509425384091u64));
+return Err(ParseError::ExcludedBranch(13675295148592556047u64));
 }
 };
 accum.push(next_elem)
@@ -33403,7 +33415,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13675295148592556047u64));
+return Err(ParseError::ExcludedBranch(4569970360394099475u64));
 }
 };
 chars.clone()
@@ -33425,7 +33437,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4569970360394099475u64));
+return Err(ParseError::ExcludedBranch(9110520999974091875u64));
 }
 };
 _input.close_peek_context()?;
@@ -33438,7 +33450,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9110520999974091875u64));
+return Err(ParseError::ExcludedBranch(15293691521783146694u64));
 }
 };
 accum.push(next_elem)
@@ -33453,7 +33465,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15293691521783146694u64));
+return Err(ParseError::ExcludedBranch(15433822888775103886u64));
 }
 };
 chars.clone()
@@ -33475,7 +33487,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15433822888775103886u64));
+return Err(ParseError::ExcludedBranch(8403192837054512577u64));
 }
 };
 _input.close_peek_context()?;
@@ -33488,7 +33500,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(17073037115051226650u64));
 }
 };
 accum.push(next_elem)
@@ -33503,7 +33515,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(3975307768385535064u64));
 }
 };
 chars.clone()
@@ -33549,7 +33561,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 }
 };
 _input.close_peek_context()?;
@@ -33562,7 +33574,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 }
 };
 accum.push(next_elem)
@@ -33577,7 +33589,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(12017601628070515145u64));
 }
 };
 chars.clone()
@@ -33624,7 +33636,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(1872233699568519226u64));
 }
 };
 _input.close_peek_context()?;
@@ -33637,7 +33649,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(10708294527730390829u64));
 }
 };
 accum.push(next_elem)
@@ -33652,7 +33664,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(7432469293302627017u64));
 }
 };
 chars.clone()
@@ -33679,7 +33691,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 }
 };
 _input.close_peek_context()?;
@@ -33692,7 +33704,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(9159119361499271180u64));
 }
 };
 accum.push(next_elem)
@@ -33707,7 +33719,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 }
 };
 chars.clone()
@@ -33722,7 +33734,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(3490919313637905107u64));
 }
 };
 let marker = {
@@ -33730,7 +33742,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33885,11 +33897,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(15311158871930328757u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34010,11 +34022,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15311158871930328757u64));
+return Err(ParseError::ExcludedBranch(9892894478446917378u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9892894478446917378u64));
+return Err(ParseError::ExcludedBranch(3585635225240718191u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34030,7 +34042,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3585635225240718191u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 }
 }
 };
@@ -34136,11 +34148,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34165,7 +34177,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 };
 let marker = {
@@ -34173,7 +34185,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34196,11 +34208,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34218,7 +34230,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 })
 }
@@ -34316,11 +34328,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34433,7 +34445,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 })
 }
@@ -34499,11 +34511,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34576,7 +34588,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 })
 }
@@ -34681,11 +34693,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34713,7 +34725,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 let marker = {
@@ -34721,7 +34733,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 jpeg_soi { marker }
@@ -34840,11 +34852,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34872,7 +34884,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 };
 let marker = {
@@ -34880,7 +34892,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 jpeg_soi { marker }
@@ -35043,13 +35055,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 };
 _input.close_peek_context()?;
@@ -35154,13 +35166,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 };
 _input.close_peek_context()?;
@@ -35214,7 +35226,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 })
 }
@@ -35234,7 +35246,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 };
 _input.close_peek_context()?;
@@ -35247,7 +35259,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 },
 
@@ -35258,7 +35270,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 };
 let arg1 = {
@@ -35266,7 +35278,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 };
 (arg0, arg1)
@@ -35275,7 +35287,7 @@ return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 })
 }
@@ -35287,7 +35299,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 };
 let marker = {
@@ -35295,7 +35307,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35308,7 +35320,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 };
 let marker = {
@@ -35316,7 +35328,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35329,7 +35341,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 };
 let marker = {
@@ -35337,7 +35349,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35350,7 +35362,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 };
 let marker = {
@@ -35358,7 +35370,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35371,7 +35383,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 };
 let marker = {
@@ -35379,7 +35391,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35392,7 +35404,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 };
 let marker = {
@@ -35400,7 +35412,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35413,7 +35425,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 let marker = {
@@ -35421,7 +35433,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3011460078285478248u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35434,7 +35446,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 };
 let marker = {
@@ -35442,7 +35454,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4614223265245060097u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35459,7 +35471,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2858990937242709991u64));
+return Err(ParseError::FalsifiedWhere(13162270726566423196u64));
 }
 };
 let image_components = {
@@ -35479,7 +35491,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13162270726566423196u64));
+return Err(ParseError::FalsifiedWhere(6766897041260485978u64));
 }
 };
 let end_spectral_selection = {
@@ -35491,7 +35503,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6766897041260485978u64));
+return Err(ParseError::FalsifiedWhere(7359082011512182682u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35528,7 +35540,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7359082011512182682u64));
+return Err(ParseError::FalsifiedWhere(4005260763079064488u64));
 })
 }
 
@@ -35546,7 +35558,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4005260763079064488u64));
+return Err(ParseError::FalsifiedWhere(9895427541506148364u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35700,13 +35712,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 };
 _input.close_peek_context()?;
@@ -35770,7 +35782,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 };
 let marker = {
@@ -35778,7 +35790,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 jpeg_soi { marker }
@@ -35805,7 +35817,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 let marker = {
@@ -35813,7 +35825,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 jpeg_soi { marker }
@@ -35840,7 +35852,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 let marker = {
@@ -35848,7 +35860,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 jpeg_soi { marker }
@@ -35875,7 +35887,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 let marker = {
@@ -35883,7 +35895,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 jpeg_soi { marker }
@@ -35910,7 +35922,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 let marker = {
@@ -35918,7 +35930,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 jpeg_soi { marker }
@@ -35945,7 +35957,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 let marker = {
@@ -35953,7 +35965,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 jpeg_soi { marker }
@@ -35980,7 +35992,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 let marker = {
@@ -35988,7 +36000,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 jpeg_soi { marker }
@@ -36015,7 +36027,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 let marker = {
@@ -36023,7 +36035,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 jpeg_soi { marker }
@@ -36050,7 +36062,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 let marker = {
@@ -36058,7 +36070,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 };
 jpeg_soi { marker }
@@ -36085,7 +36097,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 };
 let marker = {
@@ -36093,7 +36105,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 jpeg_soi { marker }
@@ -36120,7 +36132,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 };
 let marker = {
@@ -36128,7 +36140,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 };
 jpeg_soi { marker }
@@ -36155,7 +36167,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 };
 let marker = {
@@ -36163,7 +36175,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14962551735998681614u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 jpeg_soi { marker }
@@ -36190,7 +36202,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2007599397777734421u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 let marker = {
@@ -36198,7 +36210,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18069850277258932991u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 };
 jpeg_soi { marker }
@@ -36228,7 +36240,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(180881308211696508u64));
+return Err(ParseError::FalsifiedWhere(17753230141940491005u64));
 }
 };
 let num_lines = {
@@ -36247,7 +36259,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17753230141940491005u64));
+return Err(ParseError::FalsifiedWhere(6110942357212830202u64));
 }
 };
 let num_image_components = {
@@ -36259,7 +36271,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6110942357212830202u64));
+return Err(ParseError::FalsifiedWhere(6596410053543851077u64));
 }
 };
 let image_components = {
@@ -36291,7 +36303,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6596410053543851077u64));
+return Err(ParseError::FalsifiedWhere(16339654162669176472u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36305,7 +36317,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 let marker = {
@@ -36313,7 +36325,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 jpeg_soi { marker }
@@ -36364,7 +36376,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 let marker = {
@@ -36372,7 +36384,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 jpeg_soi { marker }
@@ -36399,7 +36411,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 let marker = {
@@ -36407,7 +36419,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 jpeg_soi { marker }
@@ -36434,7 +36446,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 let marker = {
@@ -36442,7 +36454,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 jpeg_soi { marker }
@@ -36469,7 +36481,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 let marker = {
@@ -36477,7 +36489,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 jpeg_soi { marker }
@@ -36504,7 +36516,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 let marker = {
@@ -36512,7 +36524,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 jpeg_soi { marker }
@@ -36539,7 +36551,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 let marker = {
@@ -36547,7 +36559,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 jpeg_soi { marker }
@@ -36594,7 +36606,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 let marker = {
@@ -36602,7 +36614,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 jpeg_soi { marker }
@@ -36649,7 +36661,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 let marker = {
@@ -36657,7 +36669,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 jpeg_soi { marker }
@@ -36704,7 +36716,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 let marker = {
@@ -36712,7 +36724,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 jpeg_soi { marker }
@@ -36759,7 +36771,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 let marker = {
@@ -36767,7 +36779,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 jpeg_soi { marker }
@@ -36814,7 +36826,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 let marker = {
@@ -36822,7 +36834,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 jpeg_soi { marker }
@@ -36869,7 +36881,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 let marker = {
@@ -36877,7 +36889,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 jpeg_soi { marker }
@@ -36924,7 +36936,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 let marker = {
@@ -36932,7 +36944,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 jpeg_soi { marker }
@@ -36979,7 +36991,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 let marker = {
@@ -36987,7 +36999,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 jpeg_soi { marker }
@@ -37034,7 +37046,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 let marker = {
@@ -37042,7 +37054,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 jpeg_soi { marker }
@@ -37089,7 +37101,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 let marker = {
@@ -37097,7 +37109,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 jpeg_soi { marker }
@@ -37144,7 +37156,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 let marker = {
@@ -37152,7 +37164,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 jpeg_soi { marker }
@@ -37199,7 +37211,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 let marker = {
@@ -37207,7 +37219,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 jpeg_soi { marker }
@@ -37254,7 +37266,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 let marker = {
@@ -37262,7 +37274,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 jpeg_soi { marker }
@@ -37309,7 +37321,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 let marker = {
@@ -37317,7 +37329,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 jpeg_soi { marker }
@@ -37375,7 +37387,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 _input.close_peek_context()?;
@@ -37388,7 +37400,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 accum.push(next_elem)
@@ -37403,7 +37415,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 chars.clone()
@@ -37459,7 +37471,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37511,7 +37523,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4491050975676636472u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 _input.close_peek_context()?;
@@ -37524,7 +37536,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 accum.push(next_elem)
@@ -37539,7 +37551,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10865781264025109219u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 chars.clone()
@@ -37596,7 +37608,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1125515999835788388u64));
+return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
 }
 };
 let density_x = {
@@ -37611,7 +37623,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
+return Err(ParseError::FalsifiedWhere(10349067556055585673u64));
 }
 };
 let density_y = {
@@ -37626,7 +37638,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10349067556055585673u64));
+return Err(ParseError::FalsifiedWhere(9276145871181842621u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37688,7 +37700,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9276145871181842621u64));
+return Err(ParseError::FalsifiedWhere(16224083238566163922u64));
 })
 }
 
@@ -37743,7 +37755,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16224083238566163922u64));
+return Err(ParseError::FalsifiedWhere(9651999844283402729u64));
 })
 }
 
@@ -37801,7 +37813,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 _input.close_peek_context()?;
@@ -37814,7 +37826,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 accum.push(next_elem)
@@ -37829,7 +37841,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37854,7 +37866,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 _input.close_peek_context()?;
@@ -37867,7 +37879,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 accum.push(next_elem)
@@ -37882,7 +37894,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 chars.clone()
@@ -37969,7 +37981,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 _input.close_peek_context()?;
@@ -37997,7 +38009,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 accum.push(next_elem)
@@ -38026,7 +38038,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 accum.push(next_elem)
@@ -38057,7 +38069,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 _input.close_peek_context()?;
@@ -38070,7 +38082,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 accum.push(next_elem)
@@ -38085,7 +38097,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38110,7 +38122,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 _input.close_peek_context()?;
@@ -38123,7 +38135,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 accum.push(next_elem)
@@ -38138,7 +38150,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 chars.clone()
@@ -38154,7 +38166,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 let arg1 = {
@@ -38162,7 +38174,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 let arg2 = {
@@ -38170,7 +38182,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38220,7 +38232,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 }
 },
@@ -38230,7 +38242,7 @@ return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 };
 _input.close_peek_context()?;
@@ -38249,7 +38261,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 })
 }
@@ -38261,7 +38273,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38285,7 +38297,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 }
 },
@@ -38295,7 +38307,7 @@ return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 };
 _input.close_peek_context()?;
@@ -38312,7 +38324,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 }
 }
 };
@@ -38337,11 +38349,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38359,7 +38371,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 })
 }
@@ -38371,7 +38383,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 let label = {
@@ -38379,7 +38391,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 let block_size = {
@@ -38387,7 +38399,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 let identifier = {
@@ -38415,7 +38427,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 _input.close_peek_context()?;
@@ -38442,7 +38454,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 let label = {
@@ -38450,7 +38462,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 let comment_data = {
@@ -38469,7 +38481,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 _input.close_peek_context()?;
@@ -38496,7 +38508,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 let data = {
@@ -38516,7 +38528,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 })
 }
 
@@ -38527,7 +38539,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 let label = {
@@ -38535,7 +38547,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 let block_size = {
@@ -38543,7 +38555,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38571,7 +38583,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 _input.close_peek_context()?;
@@ -38590,7 +38602,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 })
 }
@@ -38619,7 +38631,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 let label = {
@@ -38627,7 +38639,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 let block_size = {
@@ -38635,7 +38647,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 let text_grid_left_position = {
@@ -38674,7 +38686,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 _input.close_peek_context()?;
@@ -38701,7 +38713,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 let image_left_position = {
@@ -38751,7 +38763,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 _input.close_peek_context()?;
@@ -38882,12 +38894,6 @@ match _input.read_byte()? {
 9
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
@@ -38933,6 +38939,12 @@ return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 _ => {
 return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -38946,7 +38958,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 accum.push(next_elem)
@@ -38959,7 +38971,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 };
 (arg0, arg1)
@@ -38987,7 +38999,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39020,7 +39032,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8635718010611311692u64));
+return Err(ParseError::FalsifiedWhere(16026689348257499085u64));
 }
 };
 let num_image_components = {
@@ -39032,7 +39044,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16026689348257499085u64));
+return Err(ParseError::FalsifiedWhere(783530747334100044u64));
 }
 };
 let image_components = {
@@ -39055,7 +39067,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39077,7 +39089,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10986984519025233593u64));
+return Err(ParseError::FalsifiedWhere(11095604601945744268u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39091,7 +39103,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 let marker = {
@@ -39099,7 +39111,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 jpeg_soi { marker }
@@ -39146,7 +39158,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 };
 let marker = {
@@ -39154,7 +39166,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 jpeg_soi { marker }
@@ -39192,7 +39204,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13586715084946654863u64));
+return Err(ParseError::FalsifiedWhere(10796441316268123402u64));
 }
 };
 let num_image_components = {
@@ -39204,7 +39216,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10796441316268123402u64));
+return Err(ParseError::FalsifiedWhere(11138707079467673507u64));
 }
 };
 let image_components = {
@@ -39226,7 +39238,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11138707079467673507u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 let marker = {
@@ -39234,7 +39246,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4276041640044341942u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 };
 jpeg_soi { marker }
@@ -39269,7 +39281,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13415341611905239200u64));
+return Err(ParseError::FalsifiedWhere(8346764656077042415u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
-- 
2.43.0


From d19d206f3eca4d7ea66fc0c533f172b08fe3851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:34 +0000
Subject: [PATCH 27/46] hook: top-level generated decoder and short view text
 under --cfg verif_hooks

---
 generated/api_helper.rs |  6 ++++++
 src/parser/view.rs      | 11 ++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/generated/api_helper.rs b/generated/api_helper.rs
index 888e166..b947b7e 100644
--- a/generated/api_helper.rs
+++ b/generated/api_helper.rs
@@ -337,3 +337,9 @@ pub mod otf_metrics;
 pub(crate) mod util;
 
 pub use png_metrics::*;
+
+/// Access to the top-level decoder for external checks, compiled only under `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+pub fn verif_main<'input>(input: &mut Parser<'input>) -> Result<super::main<'input>, ParseError> {
+    Decoder_main(input)
+}
diff --git a/src/parser/view.rs b/src/parser/view.rs
index aacaf80..a730f22 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -10,12 +10,21 @@ use crate::{
     parser::{error::OverrunKind, offset::ByteOffset},
 };
 
-#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+#[cfg_attr(not(verif_hooks), derive(Debug))]
 pub struct View<'a> {
     pub(crate) buffer: &'a [u8],
     pub(crate) start_offset: usize,
 }
 
+/// Short form for external checks: a view is identified by its offset.
+#[cfg(verif_hooks)]
+impl std::fmt::Debug for View<'_> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        write!(f, "View@{}", self.start_offset)
+    }
+}
+
 impl<'a> View<'a> {
     pub fn new(buffer: &'a [u8]) -> Self {
         Self {
-- 
2.43.0


From 775345e88d590c288d6c93107df5061170cfc39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:43 +0000
Subject: [PATCH 28/46] fix: generated prediction accepts where its tree does,
 at the end of input and on other bytes

---
 generated/gencode.rs | 2440 ++++++++++++++++++++++++------------------
 src/codegen/mod.rs   |   42 +-
 2 files changed, 1454 insertions(+), 1028 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index ce72628..0f16064 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8905,7 +8905,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 90u8 => {
 1
 },
@@ -8915,8 +8916,11 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8638089167112501923u64));
+0
 }
+}
+} else {
+0
 };
 _input.close_peek_context()?;
 ret
@@ -8960,7 +8964,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1453530207670075215u64));
+return Err(ParseError::ExcludedBranch(8638089167112501923u64));
 }
 };
 _input.close_peek_context()?;
@@ -9001,12 +9005,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
+} else {
+0
 };
 _input.close_peek_context()?;
 ret
@@ -9071,9 +9079,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -9098,7 +9110,7 @@ let b = _input.read_byte()?;
 if b == 137 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15915510438164744429u64));
+return Err(ParseError::ExcludedBranch(1453530207670075215u64));
 }
 };
 let ix1 = {
@@ -9106,7 +9118,7 @@ let b = _input.read_byte()?;
 if b == 80 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1542992798780655146u64));
+return Err(ParseError::ExcludedBranch(15915510438164744429u64));
 }
 };
 let ix2 = {
@@ -9114,7 +9126,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7028560493922100069u64));
+return Err(ParseError::ExcludedBranch(1542992798780655146u64));
 }
 };
 let ix3 = {
@@ -9122,7 +9134,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2649783168072194737u64));
+return Err(ParseError::ExcludedBranch(7028560493922100069u64));
 }
 };
 let ix4 = {
@@ -9130,7 +9142,7 @@ let b = _input.read_byte()?;
 if b == 13 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8253205784254894771u64));
+return Err(ParseError::ExcludedBranch(2649783168072194737u64));
 }
 };
 let ix5 = {
@@ -9138,7 +9150,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1225514472166157741u64));
+return Err(ParseError::ExcludedBranch(8253205784254894771u64));
 }
 };
 let ix6 = {
@@ -9146,7 +9158,7 @@ let b = _input.read_byte()?;
 if b == 26 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1224415506115142500u64));
+return Err(ParseError::ExcludedBranch(1225514472166157741u64));
 }
 };
 let ix7 = {
@@ -9154,7 +9166,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16859485491091215361u64));
+return Err(ParseError::ExcludedBranch(1224415506115142500u64));
 }
 };
 vec![ix0, ix1, ix2, ix3, ix4, ix5, ix6, ix7]
@@ -9186,7 +9198,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14898840355839773829u64));
+return Err(ParseError::ExcludedBranch(16859485491091215361u64));
 }
 }
 },
@@ -9196,7 +9208,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9453951600195794313u64));
+return Err(ParseError::ExcludedBranch(14898840355839773829u64));
 }
 }
 },
@@ -9210,7 +9222,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10036157788440812915u64));
+return Err(ParseError::ExcludedBranch(9453951600195794313u64));
 }
 }
 },
@@ -9220,7 +9232,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6349531732377484771u64));
+return Err(ParseError::ExcludedBranch(10036157788440812915u64));
 }
 };
 _input.close_peek_context()?;
@@ -9268,7 +9280,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13785646910930464515u64));
+return Err(ParseError::ExcludedBranch(6349531732377484771u64));
 }
 }
 },
@@ -9278,7 +9290,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5323644471994966730u64));
+return Err(ParseError::ExcludedBranch(13785646910930464515u64));
 }
 }
 },
@@ -9288,7 +9300,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13278122992382147879u64));
+return Err(ParseError::ExcludedBranch(5323644471994966730u64));
 }
 }
 },
@@ -9298,7 +9310,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18159646757349796721u64));
+return Err(ParseError::ExcludedBranch(13278122992382147879u64));
 }
 };
 _input.close_peek_context()?;
@@ -9355,7 +9367,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706606u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7124606020426797957u64));
+return Err(ParseError::ExcludedBranch(18159646757349796721u64));
 }
 }
 },
@@ -9365,7 +9377,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847690238u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15116592996336247086u64));
+return Err(ParseError::ExcludedBranch(7124606020426797957u64));
 }
 }
 },
@@ -9375,7 +9387,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10346499338674982396u64));
+return Err(ParseError::ExcludedBranch(15116592996336247086u64));
 }
 }
 },
@@ -9385,7 +9397,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10951432197815892834u64));
+return Err(ParseError::ExcludedBranch(10346499338674982396u64));
 }
 };
 _input.close_peek_context()?;
@@ -9413,7 +9425,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14864597187136898256u64));
+return Err(ParseError::ExcludedBranch(10951432197815892834u64));
 }
 };
 let arg1 = {
@@ -9421,7 +9433,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15238960955167157760u64));
+return Err(ParseError::ExcludedBranch(14864597187136898256u64));
 }
 };
 let arg2 = {
@@ -9429,7 +9441,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17527274083228188873u64));
+return Err(ParseError::ExcludedBranch(15238960955167157760u64));
 }
 };
 let arg3 = {
@@ -9437,7 +9449,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17855530393917176367u64));
+return Err(ParseError::ExcludedBranch(17527274083228188873u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9458,7 +9470,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11054356281452530428u64));
+return Err(ParseError::ExcludedBranch(17855530393917176367u64));
 })
 } else {
 None
@@ -9520,7 +9532,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17406968167054271466u64));
+return Err(ParseError::ExcludedBranch(11054356281452530428u64));
 }
 };
 _input.close_peek_context()?;
@@ -9548,7 +9560,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11100042044514704042u64));
+return Err(ParseError::ExcludedBranch(17406968167054271466u64));
 }
 };
 accum.push(next_elem)
@@ -9560,12 +9572,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -9577,7 +9593,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5409189036752851054u64));
+return Err(ParseError::ExcludedBranch(11100042044514704042u64));
 }
 };
 accum.push(next_elem)
@@ -9704,7 +9720,7 @@ opentype_main_directory::TableDirectory(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4726315105662630465u64));
+return Err(ParseError::FailToken(5409189036752851054u64));
 }
 };
 PResult::Ok(opentype_main { magic, directory })
@@ -9718,7 +9734,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10036638040555853769u64));
+return Err(ParseError::ExcludedBranch(4726315105662630465u64));
 }
 };
 let arg1 = {
@@ -9726,7 +9742,7 @@ let b = _input.read_byte()?;
 if b == 85 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13230337088401352826u64));
+return Err(ParseError::ExcludedBranch(10036638040555853769u64));
 }
 };
 let arg2 = {
@@ -9734,7 +9750,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11460567998186064482u64));
+return Err(ParseError::ExcludedBranch(13230337088401352826u64));
 }
 };
 let arg3 = {
@@ -9742,7 +9758,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6223008304848233301u64));
+return Err(ParseError::ExcludedBranch(11460567998186064482u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9753,7 +9769,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -9787,8 +9804,11 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14550754927305275517u64));
+1
+}
 }
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -9821,7 +9841,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2391834656526534993u64));
+return Err(ParseError::ExcludedBranch(10197098993763395417u64));
 }
 };
 _input.close_peek_context()?;
@@ -9835,7 +9855,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10197098993763395417u64));
+return Err(ParseError::ExcludedBranch(6223008304848233301u64));
 }
 };
 let inner = (Decoder_rle_old_style(_input))?;
@@ -9848,7 +9868,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15631554783732883240u64));
+return Err(ParseError::ExcludedBranch(14550754927305275517u64));
 }
 };
 let inner = (Decoder_rle_new_style(_input))?;
@@ -9856,7 +9876,7 @@ rle_main::new_style(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9422510723961972169u64));
+return Err(ParseError::ExcludedBranch(15631554783732883240u64));
 }
 })
 }
@@ -9873,7 +9893,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -9915,8 +9936,11 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10940017698627680568u64));
+1
 }
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -9979,7 +10003,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9665974566873665536u64));
+return Err(ParseError::ExcludedBranch(9422510723961972169u64));
 }
 };
 _input.close_peek_context()?;
@@ -9993,7 +10017,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(179268011689651936u64));
+return Err(ParseError::ExcludedBranch(2391834656526534993u64));
 }
 };
 (char::from_u32(0u32)).unwrap()
@@ -10004,7 +10028,7 @@ return Err(ParseError::ExcludedBranch(179268011689651936u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(374064178837027275u64));
+return Err(ParseError::ExcludedBranch(10940017698627680568u64));
 }
 })
 }
@@ -10053,7 +10077,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18164850183020044607u64));
+return Err(ParseError::ExcludedBranch(9220862562374507822u64));
 }
 };
 _input.close_peek_context()?;
@@ -10067,7 +10091,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(658824046370133753u64));
+return Err(ParseError::ExcludedBranch(179268011689651936u64));
 }
 };
 byte as u32
@@ -10081,7 +10105,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 4294967292u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3725673472712527969u64));
+return Err(ParseError::ExcludedBranch(9665974566873665536u64));
 }
 };
 raw & 31u8
@@ -10118,7 +10142,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15080388466336998873u64));
+return Err(ParseError::ExcludedBranch(8376883036401934317u64));
 }
 };
 _input.close_peek_context()?;
@@ -10133,7 +10157,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12728843535195535635u64));
+return Err(ParseError::ExcludedBranch(374064178837027275u64));
 }
 };
 raw & 15u8
@@ -10144,7 +10168,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744069414584320u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15741082764016749161u64));
+return Err(ParseError::ExcludedBranch(658824046370133753u64));
 }
 };
 raw & 63u8
@@ -10160,7 +10184,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 35175782154240u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9967703502401950260u64));
+return Err(ParseError::ExcludedBranch(3725673472712527969u64));
 }
 };
 raw & 15u8
@@ -10177,7 +10201,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8376883036401934317u64));
+return Err(ParseError::ExcludedBranch(12728843535195535635u64));
 }
 };
 raw & 15u8
@@ -10188,7 +10212,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 4294967295u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9069368457806005425u64));
+return Err(ParseError::ExcludedBranch(15741082764016749161u64));
 }
 };
 raw & 63u8
@@ -10204,7 +10228,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3179861450314844647u64));
+return Err(ParseError::ExcludedBranch(9967703502401950260u64));
 }
 };
 raw & 15u8
@@ -10215,7 +10239,7 @@ let arg2 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6070260202873699214u64));
+return Err(ParseError::ExcludedBranch(9069368457806005425u64));
 }
 }
 };
@@ -10244,7 +10268,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8772793160380380086u64));
+return Err(ParseError::ExcludedBranch(3852079030227774582u64));
 }
 };
 _input.close_peek_context()?;
@@ -10259,7 +10283,7 @@ let b = _input.read_byte()?;
 if b == 240 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8986322043713516692u64));
+return Err(ParseError::ExcludedBranch(3179861450314844647u64));
 }
 };
 raw & 7u8
@@ -10270,7 +10294,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709486080u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11786939113783016634u64));
+return Err(ParseError::ExcludedBranch(15080388466336998873u64));
 }
 };
 raw & 63u8
@@ -10287,7 +10311,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3852079030227774582u64));
+return Err(ParseError::ExcludedBranch(6070260202873699214u64));
 }
 };
 raw & 7u8
@@ -10305,7 +10329,7 @@ let b = _input.read_byte()?;
 if b == 244 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5176232487486782188u64));
+return Err(ParseError::ExcludedBranch(8986322043713516692u64));
 }
 };
 raw & 7u8
@@ -10316,7 +10340,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 65535u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9220862562374507822u64));
+return Err(ParseError::ExcludedBranch(11786939113783016634u64));
 }
 };
 raw & 63u8
@@ -10327,7 +10351,7 @@ let arg3 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2605623462625042002u64));
+return Err(ParseError::ExcludedBranch(5176232487486782188u64));
 }
 }
 };
@@ -10338,7 +10362,7 @@ let (x3, x2, x1, x0) = tuple_var;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10688770705819276010u64));
+return Err(ParseError::ExcludedBranch(8772793160380380086u64));
 }
 }
 };
@@ -10352,7 +10376,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10416240583538343445u64));
+return Err(ParseError::ExcludedBranch(2605623462625042002u64));
 }
 };
 PResult::Ok(raw & 63u8)
@@ -10365,9 +10389,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -10392,9 +10420,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -10481,7 +10513,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11936787736236307191u64));
+return Err(ParseError::ExcludedBranch(386759067598651566u64));
 }
 };
 _input.close_peek_context()?;
@@ -10496,7 +10528,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1457499133218925748u64));
+return Err(ParseError::ExcludedBranch(18164850183020044607u64));
 }
 };
 _input.read_byte()?
@@ -10511,7 +10543,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14215639860155940137u64));
+return Err(ParseError::ExcludedBranch(10688770705819276010u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -10527,7 +10559,7 @@ let b = _input.read_byte()?;
 if b == 2 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5584166819955891466u64));
+return Err(ParseError::ExcludedBranch(10416240583538343445u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10543,7 +10575,7 @@ let b = _input.read_byte()?;
 if b == 3 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11133239979815295357u64));
+return Err(ParseError::ExcludedBranch(1457499133218925748u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10559,7 +10591,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1275286460638129217u64));
+return Err(ParseError::ExcludedBranch(14215639860155940137u64));
 }
 };
 let raw = _input.read_byte()?;
@@ -10575,7 +10607,7 @@ let b = _input.read_byte()?;
 if b == 5 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(386759067598651566u64));
+return Err(ParseError::ExcludedBranch(5584166819955891466u64));
 }
 };
 let raw = {
@@ -10594,7 +10626,7 @@ let b = _input.read_byte()?;
 if b == 6 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13527164188224560282u64));
+return Err(ParseError::ExcludedBranch(11133239979815295357u64));
 }
 };
 let raw = {
@@ -10613,7 +10645,7 @@ let b = _input.read_byte()?;
 if b == 7 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(240888096670347429u64));
+return Err(ParseError::ExcludedBranch(1275286460638129217u64));
 }
 };
 let raw = {
@@ -10626,7 +10658,7 @@ numbers_num_value::I64BEValue(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5215619712890029856u64));
+return Err(ParseError::ExcludedBranch(13527164188224560282u64));
 }
 })
 }
@@ -10645,7 +10677,7 @@ matches!(version, 65536u32 | 1330926671u32 | 1953658213u32)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3167775832820164678u64));
+return Err(ParseError::FalsifiedWhere(240888096670347429u64));
 }
 };
 let num_tables = {
@@ -10690,7 +10722,7 @@ tag == 1953784678u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7215050775822222282u64));
+return Err(ParseError::FalsifiedWhere(11936787736236307191u64));
 }
 };
 let major_version = {
@@ -10939,9 +10971,13 @@ let mut accum = Vec::new();
 while view_input.remaining() > 0 {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() > 0 {
+view_input.read_byte()?;
+0
+} else {
+1
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -10980,9 +11016,13 @@ let mut accum = Vec::new();
 while view_input.remaining() > 0 {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() > 0 {
+view_input.read_byte()?;
+0
+} else {
+1
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -11053,9 +11093,13 @@ let mut accum = Vec::new();
 while view_input.remaining() > 0 {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() > 0 {
+view_input.read_byte()?;
+0
+} else {
+1
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -11299,7 +11343,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3743786174148899814u64));
+return Err(ParseError::ExcludedBranch(5215619712890029856u64));
 }
 }.number_of_long_metrics, maxp.num_glyphs))?;
 view_input.end_slice()?;
@@ -11411,7 +11455,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12652804269632162478u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3167775832820164678u64));
 inner
 }
 };
@@ -11427,7 +11471,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18134882366868794706u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7215050775822222282u64));
 inner
 }
 };
@@ -11448,7 +11492,7 @@ let b = _input.read_byte()?;
 if b == 95 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7155653122005708978u64));
+return Err(ParseError::ExcludedBranch(3743786174148899814u64));
 }
 };
 let arg1 = {
@@ -11456,7 +11500,7 @@ let b = _input.read_byte()?;
 if b == 15 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17920584887603040596u64));
+return Err(ParseError::ExcludedBranch(12652804269632162478u64));
 }
 };
 let arg2 = {
@@ -11464,7 +11508,7 @@ let b = _input.read_byte()?;
 if b == 60 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5673845796627816005u64));
+return Err(ParseError::ExcludedBranch(18134882366868794706u64));
 }
 };
 let arg3 = {
@@ -11472,7 +11516,7 @@ let b = _input.read_byte()?;
 if b == 245 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14591018267292443527u64));
+return Err(ParseError::ExcludedBranch(7155653122005708978u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -11493,7 +11537,7 @@ matches!(x, 16u16..=16384u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4762692522317026931u64));
+return Err(ParseError::FalsifiedWhere(17920584887603040596u64));
 }
 };
 let created = (Decoder222(_input))?;
@@ -11608,7 +11652,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9630069758457681762u64));
+return Err(ParseError::FalsifiedWhere(5673845796627816005u64));
 }
 };
 let glyph_data_format = {
@@ -11623,7 +11667,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14591018267292443527u64));
 inner
 }
 };
@@ -11644,7 +11688,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4762692522317026931u64));
 inner
 }
 };
@@ -11660,7 +11704,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14677505873656710393u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9630069758457681762u64));
 inner
 }
 };
@@ -11747,7 +11791,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10102114574336663273u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
 inner
 }
 };
@@ -11763,7 +11807,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4386762582485017400u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
 inner
 }
 };
@@ -11779,7 +11823,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14677505873656710393u64));
 inner
 }
 };
@@ -11795,7 +11839,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7659860344311718435u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10102114574336663273u64));
 inner
 }
 };
@@ -11813,7 +11857,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4386762582485017400u64));
 inner
 }
 };
@@ -12395,7 +12439,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
 inner
 }
 };
@@ -12411,7 +12455,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(980800817911480223u64));
+return Err(ParseError::FalsifiedWhere(7659860344311718435u64));
 }
 };
 let horiz_axis_offset = {
@@ -12459,7 +12503,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
 inner
 }
 };
@@ -12505,7 +12549,7 @@ opentype_gdef_table_data::Version1_0
 },
 
 1u16 => {
-return Err(ParseError::FailToken(7801539417877429212u64));
+return Err(ParseError::FailToken(1079884235207081886u64));
 },
 
 2u16 => {
@@ -12588,7 +12632,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
 inner
 }
 };
@@ -12649,7 +12693,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
 inner
 }
 };
@@ -12708,7 +12752,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
 inner
 }
 };
@@ -12724,7 +12768,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
 inner
 }
 };
@@ -12740,7 +12784,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8987822076696059625u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
 inner
 }
 };
@@ -12775,7 +12819,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
 inner
 }
 };
@@ -12791,7 +12835,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
 inner
 }
 };
@@ -12807,7 +12851,7 @@ raw > 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7343323033370781545u64));
+return Err(ParseError::FalsifiedWhere(8987822076696059625u64));
 }
 };
 {
@@ -12822,7 +12866,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
 inner
 }
 };
@@ -12842,7 +12886,7 @@ x == 20u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
 inner
 }
 };
@@ -12877,7 +12921,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
 inner
 }
 };
@@ -12893,7 +12937,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
 inner
 }
 };
@@ -12980,7 +13024,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
 inner
 }
 };
@@ -12996,7 +13040,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
 inner
 }
 };
@@ -13051,7 +13095,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
 inner
 }
 };
@@ -13067,7 +13111,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
 inner
 }
 };
@@ -13083,7 +13127,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
 inner
 }
 };
@@ -13099,7 +13143,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
 inner
 }
 };
@@ -13142,7 +13186,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
 inner
 }
 };
@@ -13166,7 +13210,7 @@ actual == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2818918064991511645u64));
+return Err(ParseError::FalsifiedWhere(18065118697073160549u64));
 }
 };
 PResult::Ok(opentype_svg_table { table_scope, version, svg_document_list })
@@ -13186,7 +13230,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
 inner
 }
 };
@@ -13221,7 +13265,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
 inner
 }
 };
@@ -13237,7 +13281,7 @@ matches!(x, 1u16 | 2u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
 inner
 }
 };
@@ -13290,7 +13334,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
 inner
 }
 };
@@ -13306,7 +13350,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
 inner
 }
 };
@@ -13393,7 +13437,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
 inner
 }
 };
@@ -13409,7 +13453,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
 inner
 }
 };
@@ -13425,7 +13469,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
 inner
 }
 };
@@ -13441,7 +13485,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
 inner
 }
 };
@@ -13459,7 +13503,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
 inner
 }
 };
@@ -13526,7 +13570,7 @@ matches!(x, 1)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
 inner
 }
 };
@@ -13567,7 +13611,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
 inner
 }
 };
@@ -13587,7 +13631,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16097120758067046920u64));
+return Err(ParseError::FalsifiedWhere(10263667190582992611u64));
 }
 };
 let records = {
@@ -13623,7 +13667,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
 inner
 }
 };
@@ -13643,7 +13687,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14959848987246965519u64));
+return Err(ParseError::FalsifiedWhere(12275201028130973875u64));
 }
 };
 let ratio_range = {
@@ -13767,7 +13811,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
 inner
 }
 };
@@ -13783,7 +13827,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
 inner
 }
 };
@@ -13858,7 +13902,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10502127387712395480u64));
+return Err(ParseError::FalsifiedWhere(14959848987246965519u64));
 }
 };
 let data = match format {
@@ -14048,7 +14092,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
 inner
 }
 };
@@ -14080,7 +14124,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(5322124757500927073u64));
+return Err(ParseError::FailToken(17544092807091201u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14234,7 +14278,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
 inner
 }
 };
@@ -14271,7 +14315,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
 inner
 }
 };
@@ -14345,7 +14389,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -14387,8 +14432,11 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3433937857563719729u64));
+1
 }
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -14410,12 +14458,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
+} else {
+0
 };
 _input.close_peek_context()?;
 ret
@@ -14473,7 +14525,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13516986665125759073u64));
+return Err(ParseError::ExcludedBranch(5322124757500927073u64));
 }
 };
 let ix1 = {
@@ -14481,7 +14533,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14751251992141172493u64));
+return Err(ParseError::ExcludedBranch(17869550927478639832u64));
 }
 };
 vec![ix0, ix1]
@@ -14511,9 +14563,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -14551,7 +14607,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5733880678136728614u64));
+return Err(ParseError::ExcludedBranch(13431462572241034712u64));
 }
 };
 _input.close_peek_context()?;
@@ -14564,7 +14620,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8997881400116719018u64));
+return Err(ParseError::ExcludedBranch(3433937857563719729u64));
 }
 };
 accum.push(next_elem)
@@ -14579,7 +14635,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13614619987783239962u64));
+return Err(ParseError::ExcludedBranch(13516986665125759073u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14604,7 +14660,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6915530142412472120u64));
+return Err(ParseError::ExcludedBranch(14751251992141172493u64));
 }
 };
 _input.close_peek_context()?;
@@ -14617,7 +14673,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6949960292533894002u64));
+return Err(ParseError::ExcludedBranch(5733880678136728614u64));
 }
 };
 accum.push(next_elem)
@@ -14632,7 +14688,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1347174710810305478u64));
+return Err(ParseError::ExcludedBranch(8997881400116719018u64));
 }
 };
 chars.clone()
@@ -14760,12 +14816,12 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 let inner = nlen;
 let is_valid = {
 let nlen = inner;
-nlen == (try_sub!(65535u16, len, 15803403730818557393u64))
+nlen == (try_sub!(65535u16, len, 6915530142412472120u64))
 };
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8390724546948265409u64));
+return Err(ParseError::FalsifiedWhere(6949960292533894002u64));
 }
 };
 let bytes = {
@@ -15491,7 +15547,7 @@ total == ((hlit + hdist) as u32) + 258u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6347242493551283856u64));
+return Err(ParseError::FalsifiedWhere(1347174710810305478u64));
 }
 };
 let literal_length_alphabet_code_lengths_value = {
@@ -15899,7 +15955,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11915580511665106140u64));
+return Err(ParseError::ExcludedBranch(15803403730818557393u64));
 }
 }))
 },
@@ -16051,7 +16107,7 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(17324980155911269375u64));
+return Err(ParseError::FailToken(8390724546948265409u64));
 },
 
 _other => {
@@ -16186,7 +16242,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17670535809278048255u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6347242493551283856u64));
 inner
 }
 };
@@ -16252,7 +16308,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2444204717155307095u64));
+return Err(ParseError::FalsifiedWhere(4251627061094365437u64));
 }
 };
 let variation_regions = {
@@ -16425,7 +16481,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1278184758971178969u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11915580511665106140u64));
 inner
 }
 };
@@ -16509,7 +16565,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4480225125687487743u64));
+return Err(ParseError::FalsifiedWhere(17324980155911269375u64));
 }
 };
 let tuple_variation_headers = {
@@ -16702,7 +16758,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17349123374714965876u64));
+return Err(ParseError::ExcludedBranch(4480225125687487743u64));
 }
 };
 _input.close_peek_context()?;
@@ -16716,7 +16772,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12879845237981630531u64));
+return Err(ParseError::ExcludedBranch(17670535809278048255u64));
 }
 };
 (0u16, [].to_vec())
@@ -16728,7 +16784,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3426398976290336157u64));
+return Err(ParseError::ExcludedBranch(2444204717155307095u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16740,7 +16796,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11250208753083412758u64));
+return Err(ParseError::ExcludedBranch(1278184758971178969u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16748,7 +16804,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2153064741293804702u64));
+return Err(ParseError::ExcludedBranch(12879845237981630531u64));
 }
 })
 }
@@ -16878,7 +16934,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3426398976290336157u64));
 inner
 }
 };
@@ -17027,7 +17083,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3249387167439447765u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11250208753083412758u64));
 inner
 }
 };
@@ -17043,7 +17099,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17349123374714965876u64));
 inner
 }
 };
@@ -17099,7 +17155,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8700288293163706751u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2153064741293804702u64));
 inner
 }
 };
@@ -17115,7 +17171,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16771529512960957239u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
 inner
 }
 };
@@ -17257,7 +17313,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13846498452079501214u64));
+return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
 }
 };
 let table_scope = table_view;
@@ -17273,7 +17329,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
+return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
 }
 };
 let extension_offset = {
@@ -17326,11 +17382,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(9819345728844658158u64));
+return Err(ParseError::FailToken(8700288293163706751u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(18279137173405083757u64));
+return Err(ParseError::FailToken(16771529512960957239u64));
 }
 })
 }
@@ -17354,7 +17410,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14954891776835932150u64));
+return Err(ParseError::FailToken(13846498452079501214u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17423,7 +17479,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
+return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
 }
 };
 let coverage = {
@@ -17472,7 +17528,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14984809111992638634u64));
+return Err(ParseError::FalsifiedWhere(9819345728844658158u64));
 }
 };
 let coverage = {
@@ -17530,7 +17586,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9342187932533045817u64));
+return Err(ParseError::FailToken(18279137173405083757u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17561,7 +17617,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(13404710972790825894u64));
+return Err(ParseError::FailToken(14954891776835932150u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17582,7 +17638,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2688427941405105545u64));
+return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
 }
 };
 let table_scope = table_view;
@@ -17713,7 +17769,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6279463968646665849u64));
+return Err(ParseError::FailToken(14984809111992638634u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17961,7 +18017,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10875553067752207222u64));
+return Err(ParseError::FailToken(9342187932533045817u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18203,7 +18259,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11323981950571132721u64));
+return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
 }
 };
 let seq_lookup_count = {
@@ -18441,7 +18497,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1179945139148562335u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
 inner
 }
 };
@@ -18590,7 +18646,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3270685119814653163u64));
+return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
 }
 };
 let table_scope = table_view;
@@ -18606,7 +18662,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6821845925776570829u64));
+return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
 }
 };
 let extension_offset = {
@@ -18664,11 +18720,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(15898809900392744567u64));
+return Err(ParseError::FailToken(11323981950571132721u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(5653230390980289841u64));
+return Err(ParseError::FailToken(1179945139148562335u64));
 }
 })
 }
@@ -18692,7 +18748,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9179996462972575343u64));
+return Err(ParseError::FailToken(3270685119814653163u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18717,7 +18773,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3675496117133668659u64));
+return Err(ParseError::FailToken(6821845925776570829u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18738,7 +18794,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
+return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
 }
 };
 let table_scope = table_view;
@@ -18780,7 +18836,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
+return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
 }
 };
 let table_scope = table_view;
@@ -18839,7 +18895,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10310785543736156275u64));
+return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
 }
 };
 let mark_coverage = {
@@ -18896,7 +18952,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
+return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
 }
 };
 let table_scope = table_view;
@@ -19054,7 +19110,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16529910322175208638u64));
+return Err(ParseError::FailToken(6495907546257147840u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19202,7 +19258,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12187643960709778443u64));
+return Err(ParseError::ExcludedBranch(8327471529801851430u64));
 }
 };
 let arg1 = {
@@ -19210,7 +19266,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8766708729375264031u64));
+return Err(ParseError::ExcludedBranch(10310785543736156275u64));
 }
 };
 (arg0, arg1)
@@ -20148,7 +20204,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1369437808023015077u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16594239496794104967u64));
 inner
 }
 };
@@ -20239,7 +20295,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(163858356033350300u64));
+return Err(ParseError::FailToken(16529910322175208638u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20488,7 +20544,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(888161872995526095u64));
+return Err(ParseError::FailToken(12187643960709778443u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20552,7 +20608,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4770836931378141069u64));
+return Err(ParseError::FailToken(8766708729375264031u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21201,7 +21257,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
+return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
 }
 };
 let max_twilight_points = {
@@ -21244,7 +21300,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(163858356033350300u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21363,7 +21419,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
 inner
 }
 };
@@ -21388,7 +21444,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12530712830475607577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4770836931378141069u64));
 inner
 }
 };
@@ -21431,7 +21487,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9976720501248819272u64));
 inner
 }
 };
@@ -21446,7 +21502,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4795509455376621436u64));
+return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21467,7 +21523,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
 inner
 }
 };
@@ -21483,7 +21539,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5174369311102857850u64));
+return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
 }
 };
 let language = {
@@ -21562,9 +21618,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -21604,7 +21664,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
 inner
 }
 };
@@ -21629,7 +21689,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4795509455376621436u64));
 inner
 }
 };
@@ -21683,7 +21743,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
 inner
 }
 };
@@ -21725,9 +21785,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -21764,7 +21828,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
 inner
 }
 };
@@ -21815,7 +21879,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
 inner
 }
 };
@@ -21831,7 +21895,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
 inner
 }
 };
@@ -21856,7 +21920,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
 inner
 }
 };
@@ -21872,7 +21936,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
 inner
 }
 };
@@ -21927,7 +21991,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
 inner
 }
 };
@@ -21943,7 +22007,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
 inner
 }
 };
@@ -21968,7 +22032,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
 inner
 }
 };
@@ -21984,7 +22048,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -22038,7 +22102,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -22054,7 +22118,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
 inner
 }
 };
@@ -22079,7 +22143,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
 inner
 }
 };
@@ -22095,7 +22159,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
 inner
 }
 };
@@ -22142,7 +22206,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -22158,7 +22222,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -22183,7 +22247,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -22199,7 +22263,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -22246,7 +22310,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -22271,7 +22335,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -22438,7 +22502,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7762269623995317946u64));
+return Err(ParseError::FalsifiedWhere(5170050512307443704u64));
 })
 }
 
@@ -22624,7 +22688,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16134612799304961491u64));
+return Err(ParseError::ExcludedBranch(18440348483137307888u64));
 }
 };
 let arg1 = {
@@ -22632,7 +22696,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5308477118997970057u64));
+return Err(ParseError::ExcludedBranch(11309019127259385425u64));
 }
 };
 let arg2 = {
@@ -22640,7 +22704,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16190528142421852545u64));
+return Err(ParseError::ExcludedBranch(5159371628350638829u64));
 }
 };
 let arg3 = {
@@ -22648,7 +22712,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(173922233423713068u64));
+return Err(ParseError::ExcludedBranch(7762269623995317946u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22663,12 +22727,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -22680,7 +22748,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12540117573097456360u64));
+return Err(ParseError::ExcludedBranch(16134612799304961491u64));
 }
 };
 accum.push(next_elem)
@@ -22703,7 +22771,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(515819609734101411u64));
+return Err(ParseError::FalsifiedWhere(5308477118997970057u64));
 })
 }
 
@@ -22722,7 +22790,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9277543013594125416u64));
+return Err(ParseError::FalsifiedWhere(16190528142421852545u64));
 })
 }
 
@@ -22752,7 +22820,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5955168674639093440u64));
+return Err(ParseError::FalsifiedWhere(173922233423713068u64));
 })
 }
 
@@ -22766,7 +22834,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4471438437047399494u64));
+return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
 })
 }
 
@@ -22780,7 +22848,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13319523888327217639u64));
+return Err(ParseError::FalsifiedWhere(515819609734101411u64));
 })
 }
 
@@ -22841,7 +22909,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(824589811577025210u64));
+return Err(ParseError::ExcludedBranch(9277543013594125416u64));
 }
 };
 _input.close_peek_context()?;
@@ -22854,7 +22922,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4649034608147552416u64));
+return Err(ParseError::ExcludedBranch(5955168674639093440u64));
 }
 };
 accum.push(next_elem)
@@ -22870,12 +22938,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -22887,7 +22959,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(4471438437047399494u64));
 }
 };
 accum.push(next_elem)
@@ -22922,7 +22994,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(13319523888327217639u64));
 }
 };
 _input.close_peek_context()?;
@@ -22935,7 +23007,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(824589811577025210u64));
 }
 };
 accum.push(next_elem)
@@ -22951,12 +23023,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -22968,7 +23044,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(4649034608147552416u64));
 }
 };
 accum.push(next_elem)
@@ -23003,7 +23079,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12668500753644823654u64));
+return Err(ParseError::ExcludedBranch(16096650375442290768u64));
 }
 };
 _input.close_peek_context()?;
@@ -23016,7 +23092,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8094248233631264621u64));
+return Err(ParseError::ExcludedBranch(14339975513692068616u64));
 }
 };
 accum.push(next_elem)
@@ -23032,12 +23108,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23049,7 +23129,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 }
 };
 accum.push(next_elem)
@@ -23072,10 +23152,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4839194687019048322u64));
+return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14903563845775542749u64)
+try_sub!(bit as u8, 48u8, 8094248233631264621u64)
 };
 let _o9 = {
 let bit = {
@@ -23083,10 +23163,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1969670610881234889u64));
+return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7281717462557989541u64)
+try_sub!(bit as u8, 48u8, 7230273548678969972u64)
 };
 let _o8 = {
 let bit = {
@@ -23094,10 +23174,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15510952803379905659u64));
+return Err(ParseError::ExcludedBranch(14903563845775542749u64));
 }
 };
-try_sub!(bit as u8, 48u8, 6209434968043366837u64)
+try_sub!(bit as u8, 48u8, 9038350950373664822u64)
 };
 let _o7 = {
 let bit = {
@@ -23105,10 +23185,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16474038368490899078u64));
+return Err(ParseError::ExcludedBranch(7281717462557989541u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8399572043096922156u64)
+try_sub!(bit as u8, 48u8, 14681668243282477517u64)
 };
 let _o6 = {
 let bit = {
@@ -23116,10 +23196,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7832192330748800109u64));
+return Err(ParseError::ExcludedBranch(6209434968043366837u64));
 }
 };
-try_sub!(bit as u8, 48u8, 2197379665604321609u64)
+try_sub!(bit as u8, 48u8, 12217686503432178884u64)
 };
 let _o5 = {
 let bit = {
@@ -23127,10 +23207,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16624020278885696461u64));
+return Err(ParseError::ExcludedBranch(8399572043096922156u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8179432974518885725u64)
+try_sub!(bit as u8, 48u8, 9815657591077818003u64)
 };
 let _o4 = {
 let bit = {
@@ -23138,10 +23218,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5152282179373241998u64));
+return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16909208071962620789u64)
+try_sub!(bit as u8, 48u8, 14485842416732585139u64)
 };
 let _o3 = {
 let bit = {
@@ -23149,10 +23229,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7933266403838225878u64));
+return Err(ParseError::ExcludedBranch(8179432974518885725u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9041056097467752267u64)
+try_sub!(bit as u8, 48u8, 13780055874544357936u64)
 };
 let _o2 = {
 let bit = {
@@ -23160,10 +23240,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5025197102194587315u64));
+return Err(ParseError::ExcludedBranch(16909208071962620789u64));
 }
 };
-try_sub!(bit as u8, 48u8, 15252450768049745444u64)
+try_sub!(bit as u8, 48u8, 12100308281236296642u64)
 };
 let _o1 = {
 let bit = {
@@ -23171,10 +23251,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5599331855309773603u64));
+return Err(ParseError::ExcludedBranch(9041056097467752267u64));
 }
 };
-try_sub!(bit as u8, 48u8, 2988545765690796708u64)
+try_sub!(bit as u8, 48u8, 3810055094392728880u64)
 };
 let _o0 = {
 let bit = {
@@ -23182,10 +23262,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6215067399528787845u64));
+return Err(ParseError::ExcludedBranch(15252450768049745444u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3566920116549027235u64)
+try_sub!(bit as u8, 48u8, 16437491640759399344u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23213,7 +23293,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(2988545765690796708u64));
 }
 };
 _input.close_peek_context()?;
@@ -23226,7 +23306,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3653195934333285574u64));
+return Err(ParseError::ExcludedBranch(6215067399528787845u64));
 }
 };
 accum.push(next_elem)
@@ -23242,12 +23322,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23259,7 +23343,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16671136947067655757u64));
+return Err(ParseError::ExcludedBranch(17176374570344757031u64));
 }
 };
 accum.push(next_elem)
@@ -23294,7 +23378,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(3566920116549027235u64));
 }
 };
 _input.close_peek_context()?;
@@ -23307,7 +23391,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8898504689444561451u64));
+return Err(ParseError::ExcludedBranch(7979287392867129207u64));
 }
 };
 accum.push(next_elem)
@@ -23323,12 +23407,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23340,7 +23428,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(441240706992005484u64));
+return Err(ParseError::ExcludedBranch(3653195934333285574u64));
 }
 };
 accum.push(next_elem)
@@ -23369,7 +23457,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(16671136947067655757u64));
 }
 };
 let arg1 = {
@@ -23377,7 +23465,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10046433636842398056u64));
+return Err(ParseError::ExcludedBranch(10721249873135158334u64));
 }
 };
 let arg2 = {
@@ -23385,7 +23473,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11079395374415646537u64));
+return Err(ParseError::ExcludedBranch(8898504689444561451u64));
 }
 };
 let arg3 = {
@@ -23393,7 +23481,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(441240706992005484u64));
 }
 };
 let arg4 = {
@@ -23401,7 +23489,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5986772336072340665u64));
+return Err(ParseError::ExcludedBranch(3950014938140253048u64));
 }
 };
 let arg5 = {
@@ -23409,7 +23497,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8812292064350598352u64));
+return Err(ParseError::ExcludedBranch(10046433636842398056u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23420,7 +23508,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(11079395374415646537u64));
 }
 };
 let arg1 = {
@@ -23428,7 +23516,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2908689796368760670u64));
+return Err(ParseError::ExcludedBranch(757122060916971772u64));
 }
 };
 (arg0, arg1)
@@ -23467,7 +23555,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4316175446384649956u64));
+return Err(ParseError::ExcludedBranch(5986772336072340665u64));
 }
 };
 _input.close_peek_context()?;
@@ -23480,7 +23568,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(8812292064350598352u64));
 }
 };
 accum.push(next_elem)
@@ -23496,12 +23584,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23513,7 +23605,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(10645729856418057640u64));
 }
 };
 accum.push(next_elem)
@@ -23548,7 +23640,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(2908689796368760670u64));
 }
 };
 _input.close_peek_context()?;
@@ -23561,7 +23653,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(4316175446384649956u64));
 }
 };
 accum.push(next_elem)
@@ -23577,12 +23669,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23594,7 +23690,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(13311790038092155306u64));
 }
 };
 accum.push(next_elem)
@@ -23624,7 +23720,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(4598583460226006268u64));
 }
 };
 accum.push(next_elem)
@@ -23645,7 +23741,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -23655,8 +23752,11 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+0
 }
+}
+} else {
+0
 };
 _input.close_peek_context()?;
 ret
@@ -23674,7 +23774,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 accum.push(next_elem)
@@ -23687,12 +23787,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23704,7 +23808,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 accum.push(next_elem)
@@ -23723,7 +23827,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 })
 }
 
@@ -23735,7 +23839,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 byte if (byte != 0) => {
 0
 },
@@ -23745,8 +23850,11 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+1
+}
 }
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23758,7 +23866,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 accum.push(next_elem)
@@ -23773,12 +23881,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23790,7 +23902,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 accum.push(next_elem)
@@ -23821,7 +23933,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 _input.close_peek_context()?;
@@ -23834,7 +23946,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 accum.push(next_elem)
@@ -23849,12 +23961,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 1
 } else {
 0
+}
+} else {
+0
 };
 _input.close_peek_context()?;
 ret
@@ -23872,7 +23988,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 accum.push(next_elem)
@@ -23898,7 +24014,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17327099206515189757u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 _input.close_peek_context()?;
@@ -23912,7 +24028,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 let arg1 = {
@@ -23920,7 +24036,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23932,7 +24048,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 let arg1 = {
@@ -23940,14 +24056,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1029952099207838423u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14652068248613900169u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 })
 }
@@ -24006,9 +24122,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24066,9 +24186,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24093,9 +24217,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24132,9 +24260,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24156,7 +24288,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3089242474000390105u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 })
 } else {
 None
@@ -24178,7 +24310,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8785324329127396734u64));
+return Err(ParseError::FalsifiedWhere(1310624491311340594u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24210,7 +24342,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14646838598150249928u64));
+return Err(ParseError::FalsifiedWhere(11225936372640404826u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24299,9 +24431,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24342,7 +24478,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14949659785259585833u64));
+return Err(ParseError::FalsifiedWhere(1029952099207838423u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24376,7 +24512,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(562280208679883345u64));
+return Err(ParseError::FalsifiedWhere(17327099206515189757u64));
 }
 };
 let flags = {
@@ -24419,7 +24555,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1426091679331900812u64));
+return Err(ParseError::FalsifiedWhere(14652068248613900169u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24437,7 +24573,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 let arg1 = {
@@ -24445,7 +24581,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 let arg2 = {
@@ -24453,7 +24589,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 }
 };
 let arg3 = {
@@ -24461,7 +24597,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24474,7 +24610,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 let arg1 = {
@@ -24482,7 +24618,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 let arg2 = {
@@ -24490,7 +24626,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 let arg3 = {
@@ -24498,7 +24634,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24510,9 +24646,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24540,7 +24680,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 let arg1 = {
@@ -24548,7 +24688,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 let arg2 = {
@@ -24556,7 +24696,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 let arg3 = {
@@ -24564,7 +24704,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24588,7 +24728,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9660375186237087060u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 let arg1 = {
@@ -24596,7 +24736,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11684704871632490773u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 let arg2 = {
@@ -24604,7 +24744,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 };
 let arg3 = {
@@ -24612,7 +24752,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9710347097769530785u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24643,7 +24783,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(14571733789425208869u64));
 }
 };
 accum.push(next_elem)
@@ -24657,9 +24797,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 1;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+1
+} else {
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24722,9 +24866,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24805,7 +24953,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(6611121695530188940u64));
 }
 };
 val.clone()
@@ -24815,7 +24963,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(9660375186237087060u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24890,7 +25038,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13372240079418200167u64));
+return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24905,7 +25053,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 }
 };
 val.clone()
@@ -24915,7 +25063,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 let compression_method = {
@@ -24923,7 +25071,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 };
 let language_tag = {
@@ -24943,7 +25091,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 }
 };
 _input.close_peek_context()?;
@@ -24956,7 +25104,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 accum.push(next_elem)
@@ -24971,7 +25119,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 chars.clone()
@@ -24983,7 +25131,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 val.clone()
@@ -25021,9 +25169,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25070,7 +25222,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 val.clone()
@@ -25080,9 +25232,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25108,7 +25264,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 val.clone()
@@ -25118,7 +25274,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 let compressed_text = {
@@ -25214,9 +25370,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25259,7 +25419,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 val.clone()
@@ -25269,7 +25429,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 let palette = match sample_depth {
@@ -25279,9 +25439,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25314,9 +25478,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25860,6 +26028,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
@@ -26295,42 +26499,6 @@ return Err(ParseError::ExcludedBranch(5877293982949196624u64));
 _ => {
 return Err(ParseError::ExcludedBranch(2440323998191641952u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3265375406401843811u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(11458871772722170518u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(12156808917241975156u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(15301408058960503169u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4255813677013328811u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7761201277159812979u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -26344,7 +26512,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15409834313606096443u64));
+return Err(ParseError::ExcludedBranch(3265375406401843811u64));
 }
 };
 accum.push(next_elem)
@@ -26838,37 +27006,73 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7572218778908935167u64));
+return Err(ParseError::ExcludedBranch(11458871772722170518u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12520942526725743695u64));
+return Err(ParseError::ExcludedBranch(12156808917241975156u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5905249956584638130u64));
+return Err(ParseError::ExcludedBranch(15301408058960503169u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8609603324479018835u64));
+return Err(ParseError::ExcludedBranch(4255813677013328811u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8973115486793444912u64));
+return Err(ParseError::ExcludedBranch(7761201277159812979u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2872401692234135189u64));
+return Err(ParseError::ExcludedBranch(15409834313606096443u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(7572218778908935167u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12520942526725743695u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5905249956584638130u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8609603324479018835u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8973115486793444912u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2872401692234135189u64));
 }
 }
 },
@@ -27272,42 +27476,6 @@ return Err(ParseError::ExcludedBranch(7160308966995483862u64));
 _ => {
 return Err(ParseError::ExcludedBranch(10995965655495216468u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(329678914966083835u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(6740511944232229269u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16842149192073737461u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(2734069901426030304u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(8313738771561634204u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5782291498890001703u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -27321,7 +27489,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10699246393255895644u64));
+return Err(ParseError::ExcludedBranch(329678914966083835u64));
 }
 };
 accum.push(next_elem)
@@ -27346,7 +27514,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16725113430369695556u64));
+return Err(ParseError::FalsifiedWhere(6740511944232229269u64));
 }
 };
 let flags = {
@@ -27859,6 +28027,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2734069901426030304u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8313738771561634204u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5782291498890001703u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(10699246393255895644u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16725113430369695556u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(10581544802310072854u64));
 }
@@ -28294,42 +28498,6 @@ return Err(ParseError::ExcludedBranch(9848248130448711783u64));
 _ => {
 return Err(ParseError::ExcludedBranch(13072404838946064765u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(608962121954693839u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4003079682566975393u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4315160623525052581u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(1862457564087794359u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4725257428709613290u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(11823569341425521789u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -28343,7 +28511,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14474361861190022573u64));
+return Err(ParseError::ExcludedBranch(608962121954693839u64));
 }
 };
 accum.push(next_elem)
@@ -28836,6 +29004,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(4003079682566975393u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(1862457564087794359u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4725257428709613290u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(11823569341425521789u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14474361861190022573u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(8440332211549640930u64));
 }
@@ -29271,42 +29475,6 @@ return Err(ParseError::ExcludedBranch(78099073500381561u64));
 _ => {
 return Err(ParseError::ExcludedBranch(5364461768558038471u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7135191863324865081u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5733684513012333041u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3269600573864009399u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16604650314446872341u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(14275129881911283147u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(8473763373531540844u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -29320,7 +29488,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+return Err(ParseError::ExcludedBranch(7135191863324865081u64));
 }
 };
 accum.push(next_elem)
@@ -29378,7 +29546,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1456571545446476568u64));
+return Err(ParseError::ExcludedBranch(5733684513012333041u64));
 }
 };
 _input.close_peek_context()?;
@@ -29411,7 +29579,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14908888453225293887u64));
+return Err(ParseError::FalsifiedWhere(3269600573864009399u64));
 }
 };
 let flags = {
@@ -29447,7 +29615,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 byte if ((ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(byte)) => {
 0
 },
@@ -29485,8 +29654,11 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4384065895993710795u64));
+1
+}
 }
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -29514,7 +29686,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -29556,8 +29729,11 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14063858022942822585u64));
+1
 }
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -30058,67 +30234,115 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7083101893872508858u64));
+return Err(ParseError::ExcludedBranch(16604650314446872341u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15979415359593570628u64));
+return Err(ParseError::ExcludedBranch(14275129881911283147u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17922878356929717082u64));
+return Err(ParseError::ExcludedBranch(8473763373531540844u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15321253101048235163u64));
+return Err(ParseError::ExcludedBranch(9532564966458988001u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14285291594842403582u64));
+return Err(ParseError::ExcludedBranch(1456571545446476568u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7161350271661739096u64));
+return Err(ParseError::ExcludedBranch(14908888453225293887u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14445026714989735755u64));
+return Err(ParseError::ExcludedBranch(4384065895993710795u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7573348369521592997u64));
+return Err(ParseError::ExcludedBranch(14063858022942822585u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2912602219218223367u64));
+return Err(ParseError::ExcludedBranch(7083101893872508858u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15885886181646629118u64));
+return Err(ParseError::ExcludedBranch(15979415359593570628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13594649006224468849u64));
+return Err(ParseError::ExcludedBranch(17922878356929717082u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(15321253101048235163u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14285291594842403582u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(7161350271661739096u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14445026714989735755u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(7573348369521592997u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2912602219218223367u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(15885886181646629118u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(13594649006224468849u64));
 }
 }
 },
@@ -30480,54 +30704,6 @@ return Err(ParseError::ExcludedBranch(2859130192484418172u64));
 _ => {
 return Err(ParseError::ExcludedBranch(12550558264664848853u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16954835414833850385u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(1891774877762105457u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(13705211812356460160u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5515497093089591991u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(1328880024623199753u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(6882184431082022206u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3998072683184925592u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(29850628954056690u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -30541,7 +30717,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7279615132236188739u64));
+return Err(ParseError::ExcludedBranch(16954835414833850385u64));
 }
 };
 accum.push(next_elem)
@@ -30566,7 +30742,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17636172564439370608u64));
+return Err(ParseError::FalsifiedWhere(1891774877762105457u64));
 }
 };
 let flags = {
@@ -30602,7 +30778,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13863787293436782080u64));
+return Err(ParseError::ExcludedBranch(13705211812356460160u64));
 }
 };
 let arg1 = {
@@ -30610,7 +30786,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16714498072262546943u64));
+return Err(ParseError::ExcludedBranch(5515497093089591991u64));
 }
 };
 let arg2 = {
@@ -30618,7 +30794,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2157707350523277837u64));
+return Err(ParseError::ExcludedBranch(1328880024623199753u64));
 }
 };
 let arg3 = {
@@ -30626,7 +30802,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15134222038433106385u64));
+return Err(ParseError::ExcludedBranch(6882184431082022206u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30667,7 +30843,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5499566165243611472u64)
+try_sub!(x, 16u64, 29850628954056690u64)
 },
 
 _ => {
@@ -30701,9 +30877,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30726,9 +30906,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30751,9 +30935,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30793,9 +30981,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30829,7 +31021,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14916894554939814670u64)
+try_sub!(x, 16u64, 17636172564439370608u64)
 },
 
 _ => {
@@ -30863,7 +31055,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5334325531610156978u64)
+try_sub!(x, 16u64, 16714498072262546943u64)
 },
 
 _ => {
@@ -30885,9 +31077,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30910,9 +31106,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30935,9 +31135,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31084,7 +31288,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 760820951392925727u64)
+try_sub!(x, 16u64, 15134222038433106385u64)
 },
 
 _ => {
@@ -31106,9 +31310,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31131,9 +31339,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31156,9 +31368,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31198,7 +31414,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 4600414761378562541u64)
+try_sub!(x, 16u64, 5499566165243611472u64)
 },
 
 _ => {
@@ -31219,9 +31435,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31244,9 +31464,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31398,7 +31622,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15786118691017431738u64)
+try_sub!(x, 16u64, 14916894554939814670u64)
 },
 
 _ => {
@@ -31420,9 +31644,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31462,7 +31690,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16399036514137665776u64)
+try_sub!(x, 16u64, 5334325531610156978u64)
 },
 
 _ => {
@@ -31498,9 +31726,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31523,9 +31755,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31582,7 +31818,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7931358881575056193u64));
+return Err(ParseError::ExcludedBranch(16975008930446149745u64));
 }
 };
 _input.close_peek_context()?;
@@ -31595,7 +31831,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17863486658382945784u64));
+return Err(ParseError::ExcludedBranch(760820951392925727u64));
 }
 };
 accum.push(next_elem)
@@ -31610,7 +31846,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11515797873012483658u64));
+return Err(ParseError::ExcludedBranch(14363790737598139216u64));
 }
 };
 chars.clone()
@@ -31701,7 +31937,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8076978189295213982u64)
+try_sub!(x, 16u64, 18313399323903636110u64)
 },
 
 _ => {
@@ -31728,9 +31964,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31753,9 +31993,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31778,9 +32022,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31857,7 +32105,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14687724984806605719u64)
+try_sub!(x, 16u64, 16165934354425559621u64)
 },
 
 _ => {
@@ -31879,9 +32127,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31921,7 +32173,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8385173961957899741u64)
+try_sub!(x, 16u64, 7931358881575056193u64)
 },
 
 _ => {
@@ -31988,9 +32240,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32326,7 +32582,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 6881565717664829242u64)
+try_sub!(x, 16u64, 11515797873012483658u64)
 },
 
 _ => {
@@ -32341,9 +32597,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32376,9 +32636,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32412,7 +32676,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 17107648091243309207u64)
+try_sub!(x, 16u64, 8076978189295213982u64)
 },
 
 _ => {
@@ -32427,9 +32691,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32494,9 +32762,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32544,9 +32816,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32569,9 +32845,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32594,9 +32874,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32656,7 +32940,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5534609128357633386u64));
+return Err(ParseError::ExcludedBranch(11570281271401624317u64));
 }
 };
 _input.close_peek_context()?;
@@ -32669,7 +32953,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14539762430836305896u64));
+return Err(ParseError::ExcludedBranch(14687724984806605719u64));
 }
 };
 accum.push(next_elem)
@@ -32684,7 +32968,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16625761205375889740u64));
+return Err(ParseError::ExcludedBranch(1378805635639824117u64));
 }
 };
 chars.clone()
@@ -32756,9 +33040,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32781,9 +33069,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32927,7 +33219,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3344648651879382526u64)
+try_sub!(x, 16u64, 8407356061009412694u64)
 },
 
 _ => {
@@ -32944,9 +33236,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32969,9 +33265,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33011,7 +33311,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3484767027554133518u64)
+try_sub!(x, 16u64, 13752480002470540422u64)
 },
 
 _ => {
@@ -33033,9 +33333,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33073,9 +33377,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33180,7 +33488,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 12041148194529633639u64)
+try_sub!(x, 16u64, 5534609128357633386u64)
 },
 
 _ => {
@@ -33235,7 +33543,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 17888323854924040413u64)
+try_sub!(x, 16u64, 16625761205375889740u64)
 },
 
 _ => {
@@ -33290,7 +33598,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11074951631636946051u64)
+try_sub!(x, 16u64, 3344648651879382526u64)
 },
 
 _ => {
@@ -33312,9 +33620,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33387,7 +33699,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15601622509425384091u64));
+return Err(ParseError::ExcludedBranch(8599210436172030522u64));
 }
 };
 _input.close_peek_context()?;
@@ -33400,7 +33712,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13675295148592556047u64));
+return Err(ParseError::ExcludedBranch(3484767027554133518u64));
 }
 };
 accum.push(next_elem)
@@ -33415,7 +33727,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4569970360394099475u64));
+return Err(ParseError::ExcludedBranch(15403934492100194569u64));
 }
 };
 chars.clone()
@@ -33437,7 +33749,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9110520999974091875u64));
+return Err(ParseError::ExcludedBranch(12041148194529633639u64));
 }
 };
 _input.close_peek_context()?;
@@ -33450,7 +33762,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15293691521783146694u64));
+return Err(ParseError::ExcludedBranch(2288772415159374970u64));
 }
 };
 accum.push(next_elem)
@@ -33465,7 +33777,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15433822888775103886u64));
+return Err(ParseError::ExcludedBranch(17888323854924040413u64));
 }
 };
 chars.clone()
@@ -33487,7 +33799,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(6279087434444973374u64));
 }
 };
 _input.close_peek_context()?;
@@ -33500,7 +33812,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(11074951631636946051u64));
 }
 };
 accum.push(next_elem)
@@ -33515,7 +33827,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(15601622509425384091u64));
 }
 };
 chars.clone()
@@ -33561,7 +33873,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(13675295148592556047u64));
 }
 };
 _input.close_peek_context()?;
@@ -33574,7 +33886,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(4569970360394099475u64));
 }
 };
 accum.push(next_elem)
@@ -33589,7 +33901,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(9110520999974091875u64));
 }
 };
 chars.clone()
@@ -33636,7 +33948,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(15293691521783146694u64));
 }
 };
 _input.close_peek_context()?;
@@ -33649,7 +33961,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(15433822888775103886u64));
 }
 };
 accum.push(next_elem)
@@ -33664,7 +33976,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(8403192837054512577u64));
 }
 };
 chars.clone()
@@ -33691,7 +34003,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(17073037115051226650u64));
 }
 };
 _input.close_peek_context()?;
@@ -33704,7 +34016,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(3975307768385535064u64));
 }
 };
 accum.push(next_elem)
@@ -33719,7 +34031,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 }
 };
 chars.clone()
@@ -33734,7 +34046,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 }
 };
 let marker = {
@@ -33742,7 +34054,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(12017601628070515145u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33897,11 +34209,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(1872233699568519226u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15311158871930328757u64));
+return Err(ParseError::ExcludedBranch(10708294527730390829u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34022,11 +34334,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9892894478446917378u64));
+return Err(ParseError::ExcludedBranch(7432469293302627017u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3585635225240718191u64));
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34042,7 +34354,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(9159119361499271180u64));
 }
 }
 };
@@ -34148,11 +34460,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(3490919313637905107u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34177,7 +34489,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 }
 };
 let marker = {
@@ -34185,7 +34497,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34208,11 +34520,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(15311158871930328757u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(9892894478446917378u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34230,7 +34542,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(3585635225240718191u64));
 }
 })
 }
@@ -34328,11 +34640,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34445,7 +34757,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 }
 })
 }
@@ -34511,11 +34823,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34588,7 +34900,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 })
 }
@@ -34693,11 +35005,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34725,7 +35037,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 };
 let marker = {
@@ -34733,7 +35045,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 jpeg_soi { marker }
@@ -34852,11 +35164,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34884,7 +35196,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 let marker = {
@@ -34892,7 +35204,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 jpeg_soi { marker }
@@ -35055,13 +35367,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 _input.close_peek_context()?;
@@ -35166,13 +35478,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 _input.close_peek_context()?;
@@ -35226,7 +35538,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 })
 }
@@ -35246,7 +35558,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 };
 _input.close_peek_context()?;
@@ -35259,7 +35571,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 },
 
@@ -35270,7 +35582,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 };
 let arg1 = {
@@ -35278,7 +35590,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 (arg0, arg1)
@@ -35287,7 +35599,7 @@ return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 })
 }
@@ -35299,7 +35611,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 };
 let marker = {
@@ -35307,7 +35619,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35320,7 +35632,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 };
 let marker = {
@@ -35328,7 +35640,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35341,7 +35653,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 };
 let marker = {
@@ -35349,7 +35661,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35362,7 +35674,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 };
 let marker = {
@@ -35370,7 +35682,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35383,7 +35695,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 };
 let marker = {
@@ -35391,7 +35703,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35404,7 +35716,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 };
 let marker = {
@@ -35412,7 +35724,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35425,7 +35737,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3011460078285478248u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 };
 let marker = {
@@ -35433,7 +35745,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35446,7 +35758,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4614223265245060097u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 };
 let marker = {
@@ -35454,7 +35766,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2858990937242709991u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35471,7 +35783,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13162270726566423196u64));
+return Err(ParseError::FalsifiedWhere(15014773733126201031u64));
 }
 };
 let image_components = {
@@ -35491,7 +35803,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6766897041260485978u64));
+return Err(ParseError::FalsifiedWhere(9895655502210650925u64));
 }
 };
 let end_spectral_selection = {
@@ -35503,7 +35815,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7359082011512182682u64));
+return Err(ParseError::FalsifiedWhere(3344835778759068560u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35540,7 +35852,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4005260763079064488u64));
+return Err(ParseError::FalsifiedWhere(2014773054382805425u64));
 })
 }
 
@@ -35558,7 +35870,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9895427541506148364u64));
+return Err(ParseError::FalsifiedWhere(3011460078285478248u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35712,13 +36024,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 };
 _input.close_peek_context()?;
@@ -35782,7 +36094,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 };
 let marker = {
@@ -35790,7 +36102,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 };
 jpeg_soi { marker }
@@ -35817,7 +36129,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 };
 let marker = {
@@ -35825,7 +36137,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 };
 jpeg_soi { marker }
@@ -35852,7 +36164,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 };
 let marker = {
@@ -35860,7 +36172,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 jpeg_soi { marker }
@@ -35887,7 +36199,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 let marker = {
@@ -35895,7 +36207,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 };
 jpeg_soi { marker }
@@ -35922,7 +36234,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 };
 let marker = {
@@ -35930,7 +36242,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 jpeg_soi { marker }
@@ -35957,7 +36269,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 let marker = {
@@ -35965,7 +36277,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 jpeg_soi { marker }
@@ -35992,7 +36304,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 let marker = {
@@ -36000,7 +36312,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 jpeg_soi { marker }
@@ -36027,7 +36339,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 let marker = {
@@ -36035,7 +36347,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 jpeg_soi { marker }
@@ -36062,7 +36374,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 let marker = {
@@ -36070,7 +36382,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 jpeg_soi { marker }
@@ -36097,7 +36409,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 let marker = {
@@ -36105,7 +36417,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 jpeg_soi { marker }
@@ -36132,7 +36444,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 let marker = {
@@ -36140,7 +36452,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 jpeg_soi { marker }
@@ -36167,7 +36479,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14962551735998681614u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 let marker = {
@@ -36175,7 +36487,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2007599397777734421u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 jpeg_soi { marker }
@@ -36202,7 +36514,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18069850277258932991u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 let marker = {
@@ -36210,7 +36522,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(180881308211696508u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 };
 jpeg_soi { marker }
@@ -36240,7 +36552,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17753230141940491005u64));
+return Err(ParseError::FalsifiedWhere(6221053009072016381u64));
 }
 };
 let num_lines = {
@@ -36259,7 +36571,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6110942357212830202u64));
+return Err(ParseError::FalsifiedWhere(4825757476091239776u64));
 }
 };
 let num_image_components = {
@@ -36271,7 +36583,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6596410053543851077u64));
+return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
 }
 };
 let image_components = {
@@ -36303,7 +36615,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16339654162669176472u64));
+return Err(ParseError::FalsifiedWhere(12525311251009778949u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36317,7 +36629,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 };
 let marker = {
@@ -36325,7 +36637,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 jpeg_soi { marker }
@@ -36342,9 +36654,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 1;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+1
+} else {
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36376,7 +36692,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 let marker = {
@@ -36384,7 +36700,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 };
 jpeg_soi { marker }
@@ -36411,7 +36727,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 };
 let marker = {
@@ -36419,7 +36735,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 };
 jpeg_soi { marker }
@@ -36446,7 +36762,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 let marker = {
@@ -36454,7 +36770,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 jpeg_soi { marker }
@@ -36481,7 +36797,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 let marker = {
@@ -36489,7 +36805,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 jpeg_soi { marker }
@@ -36516,7 +36832,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 let marker = {
@@ -36524,7 +36840,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 jpeg_soi { marker }
@@ -36551,7 +36867,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 let marker = {
@@ -36559,7 +36875,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 jpeg_soi { marker }
@@ -36576,9 +36892,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36606,7 +36926,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 let marker = {
@@ -36614,7 +36934,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 jpeg_soi { marker }
@@ -36631,9 +36951,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36661,7 +36985,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 let marker = {
@@ -36669,7 +36993,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 jpeg_soi { marker }
@@ -36686,9 +37010,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36716,7 +37044,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 let marker = {
@@ -36724,7 +37052,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 jpeg_soi { marker }
@@ -36741,9 +37069,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36771,7 +37103,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 let marker = {
@@ -36779,7 +37111,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 jpeg_soi { marker }
@@ -36796,9 +37128,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36826,7 +37162,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 let marker = {
@@ -36834,7 +37170,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 jpeg_soi { marker }
@@ -36851,9 +37187,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36881,7 +37221,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 let marker = {
@@ -36889,7 +37229,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 jpeg_soi { marker }
@@ -36906,9 +37246,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36936,7 +37280,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 let marker = {
@@ -36944,7 +37288,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 jpeg_soi { marker }
@@ -36961,9 +37305,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36991,7 +37339,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 let marker = {
@@ -36999,7 +37347,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 jpeg_soi { marker }
@@ -37016,9 +37364,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37046,7 +37398,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 let marker = {
@@ -37054,7 +37406,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 jpeg_soi { marker }
@@ -37071,9 +37423,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37101,7 +37457,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 let marker = {
@@ -37109,7 +37465,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 jpeg_soi { marker }
@@ -37126,9 +37482,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37156,7 +37516,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 let marker = {
@@ -37164,7 +37524,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 jpeg_soi { marker }
@@ -37181,9 +37541,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37211,7 +37575,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 let marker = {
@@ -37219,7 +37583,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 jpeg_soi { marker }
@@ -37236,9 +37600,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37266,7 +37634,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 let marker = {
@@ -37274,7 +37642,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 jpeg_soi { marker }
@@ -37291,9 +37659,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37321,7 +37693,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 let marker = {
@@ -37329,7 +37701,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 jpeg_soi { marker }
@@ -37346,9 +37718,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37387,7 +37763,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 _input.close_peek_context()?;
@@ -37400,7 +37776,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 accum.push(next_elem)
@@ -37415,7 +37791,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 chars.clone()
@@ -37443,9 +37819,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37471,7 +37851,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4491050975676636472u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37485,9 +37865,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37523,7 +37907,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 _input.close_peek_context()?;
@@ -37536,7 +37920,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10865781264025109219u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 accum.push(next_elem)
@@ -37551,7 +37935,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1125515999835788388u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 chars.clone()
@@ -37574,9 +37958,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37608,7 +37996,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
+return Err(ParseError::FalsifiedWhere(1016564408906296566u64));
 }
 };
 let density_x = {
@@ -37623,7 +38011,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10349067556055585673u64));
+return Err(ParseError::FalsifiedWhere(1591903561633999639u64));
 }
 };
 let density_y = {
@@ -37638,7 +38026,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9276145871181842621u64));
+return Err(ParseError::FalsifiedWhere(9590821821210520154u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37700,7 +38088,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16224083238566163922u64));
+return Err(ParseError::FalsifiedWhere(6175893723851407495u64));
 })
 }
 
@@ -37755,7 +38143,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9651999844283402729u64));
+return Err(ParseError::FalsifiedWhere(4491050975676636472u64));
 })
 }
 
@@ -37813,7 +38201,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 _input.close_peek_context()?;
@@ -37826,7 +38214,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 accum.push(next_elem)
@@ -37841,7 +38229,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37866,7 +38254,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 _input.close_peek_context()?;
@@ -37879,7 +38267,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 accum.push(next_elem)
@@ -37894,7 +38282,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 chars.clone()
@@ -37908,12 +38296,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
+} else {
+0
 };
 _input.close_peek_context()?;
 ret
@@ -37981,7 +38373,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 _input.close_peek_context()?;
@@ -38009,7 +38401,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 accum.push(next_elem)
@@ -38021,12 +38413,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -38038,7 +38434,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 accum.push(next_elem)
@@ -38069,7 +38465,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 _input.close_peek_context()?;
@@ -38082,7 +38478,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 accum.push(next_elem)
@@ -38097,7 +38493,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38122,7 +38518,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 _input.close_peek_context()?;
@@ -38135,7 +38531,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 accum.push(next_elem)
@@ -38150,7 +38546,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 chars.clone()
@@ -38166,7 +38562,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 let arg1 = {
@@ -38174,7 +38570,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 let arg2 = {
@@ -38182,7 +38578,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38232,7 +38628,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 }
 },
@@ -38242,7 +38638,7 @@ return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 _input.close_peek_context()?;
@@ -38261,7 +38657,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 })
 }
@@ -38273,7 +38669,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38297,7 +38693,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 }
 },
@@ -38307,7 +38703,7 @@ return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 _input.close_peek_context()?;
@@ -38324,7 +38720,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 }
 };
@@ -38349,11 +38745,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38371,7 +38767,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 })
 }
@@ -38383,7 +38779,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 let label = {
@@ -38391,7 +38787,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 let block_size = {
@@ -38399,7 +38795,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 };
 let identifier = {
@@ -38427,7 +38823,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 };
 _input.close_peek_context()?;
@@ -38454,7 +38850,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 }
 };
 let label = {
@@ -38462,7 +38858,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 };
 let comment_data = {
@@ -38481,7 +38877,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 _input.close_peek_context()?;
@@ -38508,7 +38904,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 let data = {
@@ -38528,7 +38924,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 })
 }
 
@@ -38539,7 +38935,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 let label = {
@@ -38547,7 +38943,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 let block_size = {
@@ -38555,7 +38951,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38583,7 +38979,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 _input.close_peek_context()?;
@@ -38602,7 +38998,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 })
 }
@@ -38631,7 +39027,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 let label = {
@@ -38639,7 +39035,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 let block_size = {
@@ -38647,7 +39043,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 let text_grid_left_position = {
@@ -38686,7 +39082,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 _input.close_peek_context()?;
@@ -38713,7 +39109,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 let image_left_position = {
@@ -38763,7 +39159,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 _input.close_peek_context()?;
@@ -38895,55 +39291,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 };
 _input.close_peek_context()?;
@@ -38958,7 +39354,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 };
 accum.push(next_elem)
@@ -38971,7 +39367,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 };
 (arg0, arg1)
@@ -38999,7 +39395,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8635718010611311692u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39032,7 +39428,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16026689348257499085u64));
+return Err(ParseError::FalsifiedWhere(7180361712816552798u64));
 }
 };
 let num_image_components = {
@@ -39044,7 +39440,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(783530747334100044u64));
+return Err(ParseError::FalsifiedWhere(2157749958308397018u64));
 }
 };
 let image_components = {
@@ -39067,7 +39463,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39089,7 +39485,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11095604601945744268u64));
+return Err(ParseError::FalsifiedWhere(3289883751054141021u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39103,7 +39499,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 };
 let marker = {
@@ -39111,7 +39507,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 jpeg_soi { marker }
@@ -39128,9 +39524,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -39158,7 +39558,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 };
 let marker = {
@@ -39166,7 +39566,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 jpeg_soi { marker }
@@ -39204,7 +39604,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10796441316268123402u64));
+return Err(ParseError::FalsifiedWhere(16026689348257499085u64));
 }
 };
 let num_image_components = {
@@ -39216,7 +39616,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11138707079467673507u64));
+return Err(ParseError::FalsifiedWhere(783530747334100044u64));
 }
 };
 let image_components = {
@@ -39238,7 +39638,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4276041640044341942u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 let marker = {
@@ -39246,7 +39646,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13415341611905239200u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 jpeg_soi { marker }
@@ -39281,7 +39681,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8346764656077042415u64));
+return Err(ParseError::FalsifiedWhere(15243788729772203041u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 8330b7e..45654a5 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -739,6 +739,22 @@ fn invoke_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> RustExpr {
 // follows the same rules as CaseLogic::to_ast as far as the expression type of the generated code
 fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
     fn expand_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
+        let block = expand_branches(tree, ctxt);
+        match tree.accept {
+            // a tree that already accepts does so at the end of the input as well
+            Some(ix) if !tree.branches.is_empty() => {
+                let accept = RustStmt::Return(ReturnKind::Implicit, RustExpr::num_lit(ix));
+                GenBlock::simple_expr(RustExpr::Control(Box::new(RustControl::If(
+                    Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
+                    block.flatten(),
+                    Some(vec![accept]),
+                ))))
+            }
+            _ => block,
+        }
+    }
+
+    fn expand_branches(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
         match &tree.branches[..] {
             [] => {
                 if let Some(ix) = tree.accept {
@@ -822,14 +838,24 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
                     }
                 }
 
-                let value = Box::new(RustExpr::err(
-                    RustExpr::scoped(["ParseError"], "ExcludedBranch")
-                        .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
-                ));
-                let match_block = RustControl::Match(
-                    call,
-                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value }),
-                );
+                let body = if let Some(ix) = tree.accept {
+                    // a byte that no branch admits leaves the parse where the tree already accepts
+                    cases.push((
+                        MatchCaseLHS::Pattern(RustPattern::CatchAll(None)),
+                        vec![RustStmt::Return(
+                            ReturnKind::Implicit,
+                            RustExpr::num_lit(ix),
+                        )],
+                    ));
+                    RustMatchBody::Irrefutable(cases)
+                } else {
+                    let value = Box::new(RustExpr::err(
+                        RustExpr::scoped(["ParseError"], "ExcludedBranch")
+                            .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
+                    ));
+                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value })
+                };
+                let match_block = RustControl::Match(call, body);
                 GenBlock::simple_expr(RustExpr::Control(Box::new(match_block)))
             }
         }
-- 
2.43.0


From ac99d6cffeaff1d098c6d9e93d6122e457802b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:36 +0000
Subject: [PATCH 29/46] fix: generated Repeat1 and RepeatBetween enforce their
 minimum at the end of input

---
 generated/gencode.rs | 52 ++++++++++++++++++++++++--------------------
 src/codegen/mod.rs   | 33 ++++++++++++++++------------
 2 files changed, 48 insertions(+), 37 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 0f16064..575a0d6 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8901,7 +8901,7 @@ PResult::Ok(waldo_main { r#where, noise, waldo })
 /// d#3
 fn Decoder3(_input: &mut Parser<'_>) -> Result<Vec<u32>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -9002,7 +9002,7 @@ PResult::Ok(accum)
 /// d#6
 fn Decoder6(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -9252,7 +9252,7 @@ let idat = {
 let idat = {
 let xs = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 _input.read_byte()?;
@@ -9518,7 +9518,7 @@ PResult::Ok(tiff_main { start_of_header, byte_order, magic, offset, ifd })
 fn Decoder_tar_main(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -14455,7 +14455,7 @@ PResult::Ok(accum)
 /// d#79
 fn Decoder79(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23737,7 +23737,7 @@ PResult::Ok(ret)
 fn Decoder_tar_ascii_string_opt0_nonempty(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23958,7 +23958,7 @@ accum
 };
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -24794,7 +24794,7 @@ PResult::Ok(accum)
 /// d#287
 fn Decoder287(_input: &mut Parser<'_>) -> Result<Vec<gif_color_table_entry>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -25547,7 +25547,7 @@ PResult::Ok(png_time { year, month, day, hour, minute, second })
 /// d#302
 fn Decoder302(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+for _ in 0..79u32 {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -26504,7 +26504,7 @@ _input.close_peek_context()?;
 ret
 }
 };
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+if reps_left == 0 {
 break
 } else {
 let next_elem = {
@@ -26518,13 +26518,14 @@ return Err(ParseError::ExcludedBranch(3265375406401843811u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
 /// d#303
 fn Decoder303(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+for _ in 0..79u32 {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -27481,7 +27482,7 @@ _input.close_peek_context()?;
 ret
 }
 };
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+if reps_left == 0 {
 break
 } else {
 let next_elem = {
@@ -27495,6 +27496,7 @@ return Err(ParseError::ExcludedBranch(329678914966083835u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -27546,7 +27548,7 @@ PResult::Ok(zlib_main { compression_method_flags, flags, dict_id, data, adler32
 /// d#305
 fn Decoder305(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+for _ in 0..79u32 {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -28503,7 +28505,7 @@ _input.close_peek_context()?;
 ret
 }
 };
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+if reps_left == 0 {
 break
 } else {
 let next_elem = {
@@ -28517,13 +28519,14 @@ return Err(ParseError::ExcludedBranch(608962121954693839u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
 /// d#306
 fn Decoder306(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+for _ in 0..79u32 {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -29480,7 +29483,7 @@ _input.close_peek_context()?;
 ret
 }
 };
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+if reps_left == 0 {
 break
 } else {
 let next_elem = {
@@ -29494,6 +29497,7 @@ return Err(ParseError::ExcludedBranch(7135191863324865081u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -29752,7 +29756,7 @@ PResult::Ok(accum)
 /// d#312
 fn Decoder312(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+for _ in 0..79u32 {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -30709,7 +30713,7 @@ _input.close_peek_context()?;
 ret
 }
 };
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+if reps_left == 0 {
 break
 } else {
 let next_elem = {
@@ -30723,6 +30727,7 @@ return Err(ParseError::ExcludedBranch(16954835414833850385u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -36651,7 +36656,7 @@ let sz = (try_sub!(length, 2u16, 3198904588321530108u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38293,7 +38298,7 @@ PResult::Ok(gzip_fcomment { comment })
 /// d#452
 fn Decoder452(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38359,7 +38364,7 @@ PResult::Ok(accum)
 fn Decoder453(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -39229,7 +39234,7 @@ fn Decoder477(_input: &mut Parser<'_>) -> Result<u32, ParseError> {
 let tuple_var = {
 let arg0 = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+for _ in 0..9u16 {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -39346,7 +39351,7 @@ _input.close_peek_context()?;
 ret
 }
 };
-if (repeat_between_finished(reps_left == 0, accum.len(), 0u16 as usize, 9u16 as usize))? {
+if reps_left == 0 {
 break
 } else {
 let next_elem = {
@@ -39360,6 +39365,7 @@ return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 0u16 as usize, 9u16 as usize))?;
 accum
 };
 let arg1 = {
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 45654a5..117672e 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3079,10 +3079,11 @@ where
                     )
                     .into();
                     let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_ix], Some(escape_clause.into())),
-                    )
+                    // NOTE - at the end of the input, it is for the tree to say whether we may stop
+                    GenControl::Loop(GenBlock::from_parts(
+                        vec![bind_ix],
+                        Some(escape_clause.into()),
+                    ))
                 };
                 stmts.push(ctrl.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::R1BOM_ACCUM).into()))
@@ -3091,18 +3092,13 @@ where
                 let mut stmts = Vec::new();
 
                 stmts.push(model::let_mut_vec_new(model::BETWEEN_ACCUM).into());
+                // NOTE - once `max` is reached, what follows is not ours to predict
                 let ctrl = {
                     let bind_reps_left = {
                         let reps_left = invoke_matchtree(reps_left_tree, ctxt);
                         RustStmt::assign(model::BETWEEN_REPS_LEFT, reps_left).into()
                     };
-                    let cond = {
-                        let out_of_reps = model::eq0(RustExpr::local(model::BETWEEN_REPS_LEFT));
-                        let len_expr = RustExpr::local(model::BETWEEN_ACCUM).vec_len();
-                        let min_expr = expr_min.clone().cast_as_usize();
-                        let max_expr = expr_max.clone().cast_as_usize();
-                        model::repeat_between_finished(out_of_reps, len_expr, min_expr, max_expr)
-                    };
+                    let out_of_reps = model::eq0(RustExpr::local(model::BETWEEN_REPS_LEFT));
                     let b_continue = {
                         let bind_elem = GenStmt::assign(model::BETWEEN_ELEM, elt.to_ast(ctxt));
                         let push_elem = model::vec_push(
@@ -3112,13 +3108,22 @@ where
                         GenBlock::from_parts(vec![bind_elem], Some(push_elem.into()))
                     };
                     let b_stop = GenControl::Break.into();
-                    let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
+                    let escape_clause =
+                        GenControl::If(Box::new(out_of_reps), b_stop, Some(b_continue));
+                    GenControl::ForRange0(
+                        Label::from("_"),
+                        expr_max.clone(),
                         GenBlock::from_parts(vec![bind_reps_left], Some(escape_clause.into())),
                     )
                 };
                 stmts.push(ctrl.into());
+                let check_count = {
+                    let len_expr = RustExpr::local(model::BETWEEN_ACCUM).vec_len();
+                    let min_expr = expr_min.clone().cast_as_usize();
+                    let max_expr = expr_max.clone().cast_as_usize();
+                    model::repeat_between_finished(RustExpr::TRUE, len_expr, min_expr, max_expr)
+                };
+                stmts.push(GenStmt::Embed(RustStmt::Expr(check_count)));
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::BETWEEN_ACCUM).into()))
             }
             RepeatLogic::ForEach(seq, lbl, inner) => {
-- 
2.43.0


From b4f63c4ca4c234ce5bf2f5a45cc07808f691b5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:25 +0000
Subject: [PATCH 30/46] fix: a generated format match that no case admits is a
 parse error, not a panic

---
 generated/gencode.rs        | 1994 +++++++++++++++++------------------
 src/codegen/mod.rs          |    7 +-
 src/codegen/rust_ast/mod.rs |    1 +
 3 files changed, 1003 insertions(+), 999 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 575a0d6..91305ac 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -10850,8 +10850,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(5215619712890029856u64));
 }
 };
 let head = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751474532u32, tables)).copied() {
@@ -10865,8 +10865,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(3167775832820164678u64));
 }
 };
 let hhea = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751672161u32, tables)).copied() {
@@ -10880,8 +10880,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(7215050775822222282u64));
 }
 };
 let maxp = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1835104368u32, tables)).copied() {
@@ -10895,8 +10895,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(3743786174148899814u64));
 }
 };
 let hmtx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1752003704u32, tables)).copied() {
@@ -10910,8 +10910,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(12652804269632162478u64));
 }
 };
 let name = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1851878757u32, tables)).copied() {
@@ -10925,8 +10925,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(18134882366868794706u64));
 }
 };
 let os2 = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1330851634u32, tables)).copied() {
@@ -10941,8 +10941,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(7155653122005708978u64));
 }
 };
 let post = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1886352244u32, tables)).copied() {
@@ -10956,8 +10956,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17920584887603040596u64));
 }
 };
 let cvt = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1668707360u32, tables)).copied() {
@@ -11343,7 +11343,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5215619712890029856u64));
+return Err(ParseError::ExcludedBranch(5673845796627816005u64));
 }
 }.number_of_long_metrics, maxp.num_glyphs))?;
 view_input.end_slice()?;
@@ -11455,7 +11455,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3167775832820164678u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14591018267292443527u64));
 inner
 }
 };
@@ -11471,7 +11471,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7215050775822222282u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4762692522317026931u64));
 inner
 }
 };
@@ -11492,7 +11492,7 @@ let b = _input.read_byte()?;
 if b == 95 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3743786174148899814u64));
+return Err(ParseError::ExcludedBranch(9630069758457681762u64));
 }
 };
 let arg1 = {
@@ -11500,7 +11500,7 @@ let b = _input.read_byte()?;
 if b == 15 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12652804269632162478u64));
+return Err(ParseError::ExcludedBranch(908377722732597655u64));
 }
 };
 let arg2 = {
@@ -11508,7 +11508,7 @@ let b = _input.read_byte()?;
 if b == 60 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18134882366868794706u64));
+return Err(ParseError::ExcludedBranch(3203034260088513018u64));
 }
 };
 let arg3 = {
@@ -11516,7 +11516,7 @@ let b = _input.read_byte()?;
 if b == 245 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7155653122005708978u64));
+return Err(ParseError::ExcludedBranch(14677505873656710393u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -11537,7 +11537,7 @@ matches!(x, 16u16..=16384u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17920584887603040596u64));
+return Err(ParseError::FalsifiedWhere(10102114574336663273u64));
 }
 };
 let created = (Decoder222(_input))?;
@@ -11652,7 +11652,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5673845796627816005u64));
+return Err(ParseError::FalsifiedWhere(4386762582485017400u64));
 }
 };
 let glyph_data_format = {
@@ -11667,7 +11667,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14591018267292443527u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
 inner
 }
 };
@@ -11688,7 +11688,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4762692522317026931u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7659860344311718435u64));
 inner
 }
 };
@@ -11704,7 +11704,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9630069758457681762u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
 inner
 }
 };
@@ -11791,7 +11791,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
 inner
 }
 };
@@ -11807,7 +11807,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
 inner
 }
 };
@@ -11823,7 +11823,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14677505873656710393u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
 inner
 }
 };
@@ -11839,7 +11839,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10102114574336663273u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
 inner
 }
 };
@@ -11857,7 +11857,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4386762582485017400u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
 inner
 }
 };
@@ -12335,8 +12335,8 @@ accum
 opentype_loca_table_offsets::Offsets32(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(11328034188734904930u64));
 }
 };
 PResult::Ok(opentype_loca_table { offsets })
@@ -12439,7 +12439,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
 inner
 }
 };
@@ -12455,7 +12455,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7659860344311718435u64));
+return Err(ParseError::FalsifiedWhere(15432825464810477099u64));
 }
 };
 let horiz_axis_offset = {
@@ -12503,7 +12503,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8987822076696059625u64));
 inner
 }
 };
@@ -12549,7 +12549,7 @@ opentype_gdef_table_data::Version1_0
 },
 
 1u16 => {
-return Err(ParseError::FailToken(1079884235207081886u64));
+return Err(ParseError::FailToken(10078755145706786000u64));
 },
 
 2u16 => {
@@ -12632,7 +12632,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
 inner
 }
 };
@@ -12693,7 +12693,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
 inner
 }
 };
@@ -12752,7 +12752,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
 inner
 }
 };
@@ -12768,7 +12768,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
 inner
 }
 };
@@ -12784,7 +12784,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
 inner
 }
 };
@@ -12819,7 +12819,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
 inner
 }
 };
@@ -12835,7 +12835,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
 inner
 }
 };
@@ -12851,7 +12851,7 @@ raw > 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8987822076696059625u64));
+return Err(ParseError::FalsifiedWhere(14009314771729697611u64));
 }
 };
 {
@@ -12866,7 +12866,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
 inner
 }
 };
@@ -12886,7 +12886,7 @@ x == 20u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
 inner
 }
 };
@@ -12921,7 +12921,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
 inner
 }
 };
@@ -12937,7 +12937,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
 inner
 }
 };
@@ -13024,7 +13024,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
 inner
 }
 };
@@ -13040,7 +13040,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
 inner
 }
 };
@@ -13095,7 +13095,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
 inner
 }
 };
@@ -13111,7 +13111,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
 inner
 }
 };
@@ -13127,7 +13127,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
 inner
 }
 };
@@ -13143,7 +13143,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
 inner
 }
 };
@@ -13186,7 +13186,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
 inner
 }
 };
@@ -13210,7 +13210,7 @@ actual == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18065118697073160549u64));
+return Err(ParseError::FalsifiedWhere(7511456693437940214u64));
 }
 };
 PResult::Ok(opentype_svg_table { table_scope, version, svg_document_list })
@@ -13230,7 +13230,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
 inner
 }
 };
@@ -13265,7 +13265,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
 inner
 }
 };
@@ -13281,7 +13281,7 @@ matches!(x, 1u16 | 2u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
 inner
 }
 };
@@ -13334,7 +13334,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
 inner
 }
 };
@@ -13350,7 +13350,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
 inner
 }
 };
@@ -13437,7 +13437,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
 inner
 }
 };
@@ -13453,7 +13453,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
 inner
 }
 };
@@ -13469,7 +13469,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
 inner
 }
 };
@@ -13485,7 +13485,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
 inner
 }
 };
@@ -13503,7 +13503,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
 inner
 }
 };
@@ -13570,7 +13570,7 @@ matches!(x, 1)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
 inner
 }
 };
@@ -13611,7 +13611,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
 inner
 }
 };
@@ -13631,7 +13631,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10263667190582992611u64));
+return Err(ParseError::FalsifiedWhere(14454034443522724586u64));
 }
 };
 let records = {
@@ -13667,7 +13667,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5322124757500927073u64));
 inner
 }
 };
@@ -13687,7 +13687,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12275201028130973875u64));
+return Err(ParseError::FalsifiedWhere(17869550927478639832u64));
 }
 };
 let ratio_range = {
@@ -13811,7 +13811,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
 inner
 }
 };
@@ -13827,7 +13827,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
 inner
 }
 };
@@ -13902,7 +13902,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14959848987246965519u64));
+return Err(ParseError::FalsifiedWhere(13516986665125759073u64));
 }
 };
 let data = match format {
@@ -14065,8 +14065,8 @@ opentype_stat_axis_value_table_data_Format4 { axis_count, flags, value_name_id,
 opentype_stat_axis_value_table_data::Format4(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(14751251992141172493u64));
 }
 };
 PResult::Ok(opentype_stat_axis_value_table { format, data })
@@ -14092,7 +14092,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
 inner
 }
 };
@@ -14124,7 +14124,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(17544092807091201u64));
+return Err(ParseError::FailToken(8997881400116719018u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14278,7 +14278,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13614619987783239962u64));
 inner
 }
 };
@@ -14315,7 +14315,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
 inner
 }
 };
@@ -14525,7 +14525,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5322124757500927073u64));
+return Err(ParseError::ExcludedBranch(6949960292533894002u64));
 }
 };
 let ix1 = {
@@ -14533,7 +14533,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17869550927478639832u64));
+return Err(ParseError::ExcludedBranch(1347174710810305478u64));
 }
 };
 vec![ix0, ix1]
@@ -14607,7 +14607,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13431462572241034712u64));
+return Err(ParseError::ExcludedBranch(8958899994948144829u64));
 }
 };
 _input.close_peek_context()?;
@@ -14620,7 +14620,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3433937857563719729u64));
+return Err(ParseError::ExcludedBranch(15803403730818557393u64));
 }
 };
 accum.push(next_elem)
@@ -14635,7 +14635,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13516986665125759073u64));
+return Err(ParseError::ExcludedBranch(8390724546948265409u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14660,7 +14660,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14751251992141172493u64));
+return Err(ParseError::ExcludedBranch(6347242493551283856u64));
 }
 };
 _input.close_peek_context()?;
@@ -14673,7 +14673,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5733880678136728614u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 };
 accum.push(next_elem)
@@ -14688,7 +14688,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8997881400116719018u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 chars.clone()
@@ -14794,8 +14794,8 @@ let inner = (Decoder_deflate_dynamic_huffman(_input))?;
 deflate_block_data::dynamic_huffman(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17324980155911269375u64));
 }
 };
 PResult::Ok(deflate_block { r#final, r#type, data })
@@ -14816,12 +14816,12 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 let inner = nlen;
 let is_valid = {
 let nlen = inner;
-nlen == (try_sub!(65535u16, len, 6915530142412472120u64))
+nlen == (try_sub!(65535u16, len, 2444204717155307095u64))
 };
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6949960292533894002u64));
+return Err(ParseError::FalsifiedWhere(1278184758971178969u64));
 }
 };
 let bytes = {
@@ -15547,7 +15547,7 @@ total == ((hlit + hdist) as u32) + 258u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1347174710810305478u64));
+return Err(ParseError::FalsifiedWhere(4480225125687487743u64));
 }
 };
 let literal_length_alphabet_code_lengths_value = {
@@ -15955,7 +15955,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15803403730818557393u64));
+return Err(ParseError::ExcludedBranch(3426398976290336157u64));
 }
 }))
 },
@@ -16107,11 +16107,11 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(8390724546948265409u64));
+return Err(ParseError::FailToken(11250208753083412758u64));
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17349123374714965876u64));
 }
 })
 }
@@ -16188,8 +16188,8 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 (bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | (bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16 | (bits.12 as u16) << 12u16
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(2153064741293804702u64));
 }
 };
 let distance = start + distance_extra_bits;
@@ -16242,7 +16242,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6347242493551283856u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
 inner
 }
 };
@@ -16308,7 +16308,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4251627061094365437u64));
+return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
 }
 };
 let variation_regions = {
@@ -16481,7 +16481,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11915580511665106140u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
 inner
 }
 };
@@ -16502,8 +16502,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(8700288293163706751u64));
 }
 };
 let map_data = {
@@ -16565,7 +16565,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17324980155911269375u64));
+return Err(ParseError::FalsifiedWhere(16771529512960957239u64));
 }
 };
 let tuple_variation_headers = {
@@ -16758,7 +16758,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4480225125687487743u64));
+return Err(ParseError::ExcludedBranch(18279137173405083757u64));
 }
 };
 _input.close_peek_context()?;
@@ -16772,7 +16772,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17670535809278048255u64));
+return Err(ParseError::ExcludedBranch(13846498452079501214u64));
 }
 };
 (0u16, [].to_vec())
@@ -16784,7 +16784,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2444204717155307095u64));
+return Err(ParseError::ExcludedBranch(9798710097031164942u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16796,7 +16796,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1278184758971178969u64));
+return Err(ParseError::ExcludedBranch(9819345728844658158u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16804,7 +16804,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12879845237981630531u64));
+return Err(ParseError::ExcludedBranch(14954891776835932150u64));
 }
 })
 }
@@ -16934,7 +16934,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3426398976290336157u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11046436797737227751u64));
 inner
 }
 };
@@ -17083,7 +17083,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11250208753083412758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
 inner
 }
 };
@@ -17099,7 +17099,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17349123374714965876u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9342187932533045817u64));
 inner
 }
 };
@@ -17155,7 +17155,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2153064741293804702u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
 inner
 }
 };
@@ -17171,7 +17171,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
 inner
 }
 };
@@ -17313,7 +17313,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
+return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
 }
 };
 let table_scope = table_view;
@@ -17329,7 +17329,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
+return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
 }
 };
 let extension_offset = {
@@ -17382,11 +17382,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(8700288293163706751u64));
+return Err(ParseError::FailToken(11323981950571132721u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(16771529512960957239u64));
+return Err(ParseError::FailToken(1179945139148562335u64));
 }
 })
 }
@@ -17410,7 +17410,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(13846498452079501214u64));
+return Err(ParseError::FailToken(3270685119814653163u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17456,8 +17456,8 @@ opentype_layout_multiple_subst_subst_Format1 { sequence_count, sequence_offsets,
 opentype_layout_multiple_subst_subst::Format1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(6821845925776570829u64));
 }
 };
 PResult::Ok(opentype_layout_multiple_subst { table_scope, subst_format, coverage, subst })
@@ -17479,7 +17479,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
+return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
 }
 };
 let coverage = {
@@ -17528,7 +17528,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9819345728844658158u64));
+return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
 }
 };
 let coverage = {
@@ -17586,7 +17586,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(18279137173405083757u64));
+return Err(ParseError::FailToken(9179996462972575343u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17617,7 +17617,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14954891776835932150u64));
+return Err(ParseError::FailToken(3675496117133668659u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17638,7 +17638,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
+return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
 }
 };
 let table_scope = table_view;
@@ -17769,7 +17769,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14984809111992638634u64));
+return Err(ParseError::FailToken(8327471529801851430u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -18017,7 +18017,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9342187932533045817u64));
+return Err(ParseError::FailToken(10310785543736156275u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18259,7 +18259,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
+return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
 }
 };
 let seq_lookup_count = {
@@ -18497,7 +18497,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16529910322175208638u64));
 inner
 }
 };
@@ -18646,7 +18646,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+return Err(ParseError::FalsifiedWhere(12187643960709778443u64));
 }
 };
 let table_scope = table_view;
@@ -18662,7 +18662,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(8766708729375264031u64));
 }
 };
 let extension_offset = {
@@ -18720,11 +18720,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(11323981950571132721u64));
+return Err(ParseError::FailToken(1369437808023015077u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(163858356033350300u64));
 }
 })
 }
@@ -18748,7 +18748,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(888161872995526095u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18773,7 +18773,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6821845925776570829u64));
+return Err(ParseError::FailToken(4770836931378141069u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18794,7 +18794,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
+return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
 }
 };
 let table_scope = table_view;
@@ -18836,7 +18836,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
 }
 };
 let table_scope = table_view;
@@ -18895,7 +18895,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
+return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
 }
 };
 let mark_coverage = {
@@ -18952,7 +18952,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
+return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
 }
 };
 let table_scope = table_view;
@@ -19110,7 +19110,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6495907546257147840u64));
+return Err(ParseError::FailToken(1386817607731947864u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19258,7 +19258,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8327471529801851430u64));
+return Err(ParseError::ExcludedBranch(4795509455376621436u64));
 }
 };
 let arg1 = {
@@ -19266,7 +19266,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10310785543736156275u64));
+return Err(ParseError::ExcludedBranch(3923207427992258326u64));
 }
 };
 (arg0, arg1)
@@ -20204,7 +20204,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16594239496794104967u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
 inner
 }
 };
@@ -20295,7 +20295,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16529910322175208638u64));
+return Err(ParseError::FailToken(15995337135637623051u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20544,7 +20544,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(12187643960709778443u64));
+return Err(ParseError::FailToken(4063460887563813446u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20608,7 +20608,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8766708729375264031u64));
+return Err(ParseError::FailToken(10243418979491025991u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21257,7 +21257,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
+return Err(ParseError::FalsifiedWhere(6726475111737435495u64));
 }
 };
 let max_twilight_points = {
@@ -21300,7 +21300,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(163858356033350300u64));
+return Err(ParseError::FalsifiedWhere(3702191162545267776u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21395,8 +21395,8 @@ let inner = (Decoder_opentype_cmap_subtable_format14(_input, table_view))?;
 opentype_cmap_subtable_data::Format14(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(14926982082392674388u64));
 }
 };
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
@@ -21419,7 +21419,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
 inner
 }
 };
@@ -21444,7 +21444,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4770836931378141069u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -21487,7 +21487,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9976720501248819272u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -21502,7 +21502,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(7200474585457206375u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21523,7 +21523,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
 inner
 }
 };
@@ -21539,7 +21539,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(13264741506377240721u64));
 }
 };
 let language = {
@@ -21664,7 +21664,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -21689,7 +21689,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4795509455376621436u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -21743,7 +21743,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -21828,7 +21828,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -21879,7 +21879,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -21895,7 +21895,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -21920,7 +21920,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -21936,7 +21936,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -21991,7 +21991,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -22007,7 +22007,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -22032,7 +22032,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
 inner
 }
 };
@@ -22048,7 +22048,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
 inner
 }
 };
@@ -22102,7 +22102,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
 inner
 }
 };
@@ -22118,7 +22118,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
 inner
 }
 };
@@ -22143,7 +22143,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
 inner
 }
 };
@@ -22159,7 +22159,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
 inner
 }
 };
@@ -22206,7 +22206,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
 inner
 }
 };
@@ -22222,7 +22222,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
 inner
 }
 };
@@ -22247,7 +22247,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
 inner
 }
 };
@@ -22263,7 +22263,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
 inner
 }
 };
@@ -22310,7 +22310,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
 inner
 }
 };
@@ -22335,7 +22335,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
 inner
 }
 };
@@ -22502,7 +22502,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5170050512307443704u64));
+return Err(ParseError::FalsifiedWhere(4649034608147552416u64));
 })
 }
 
@@ -22519,8 +22519,8 @@ let inner = (Decoder251(_input, is_be))?;
 elf_types_elf_full::Full64(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(16096650375442290768u64));
 }
 })
 }
@@ -22538,8 +22538,8 @@ let inner = (Decoder250(_input, is_be))?;
 elf_types_elf_addr::Addr64(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(14339975513692068616u64));
 }
 })
 }
@@ -22557,8 +22557,8 @@ let inner = (Decoder248(_input, is_be))?;
 elf_types_elf_off::Off64(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 }
 })
 }
@@ -22688,7 +22688,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18440348483137307888u64));
+return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 }
 };
 let arg1 = {
@@ -22696,7 +22696,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11309019127259385425u64));
+return Err(ParseError::ExcludedBranch(12668500753644823654u64));
 }
 };
 let arg2 = {
@@ -22704,7 +22704,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5159371628350638829u64));
+return Err(ParseError::ExcludedBranch(8094248233631264621u64));
 }
 };
 let arg3 = {
@@ -22712,7 +22712,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7762269623995317946u64));
+return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22748,7 +22748,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16134612799304961491u64));
+return Err(ParseError::ExcludedBranch(4839194687019048322u64));
 }
 };
 accum.push(next_elem)
@@ -22771,7 +22771,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5308477118997970057u64));
+return Err(ParseError::FalsifiedWhere(7230273548678969972u64));
 })
 }
 
@@ -22790,7 +22790,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16190528142421852545u64));
+return Err(ParseError::FalsifiedWhere(14903563845775542749u64));
 })
 }
 
@@ -22820,7 +22820,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(173922233423713068u64));
+return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
 })
 }
 
@@ -22834,7 +22834,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
+return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
 })
 }
 
@@ -22848,7 +22848,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(515819609734101411u64));
+return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
 })
 }
 
@@ -22909,7 +22909,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9277543013594125416u64));
+return Err(ParseError::ExcludedBranch(15510952803379905659u64));
 }
 };
 _input.close_peek_context()?;
@@ -22922,7 +22922,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5955168674639093440u64));
+return Err(ParseError::ExcludedBranch(14681668243282477517u64));
 }
 };
 accum.push(next_elem)
@@ -22959,7 +22959,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4471438437047399494u64));
+return Err(ParseError::ExcludedBranch(6209434968043366837u64));
 }
 };
 accum.push(next_elem)
@@ -22994,7 +22994,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13319523888327217639u64));
+return Err(ParseError::ExcludedBranch(16474038368490899078u64));
 }
 };
 _input.close_peek_context()?;
@@ -23007,7 +23007,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(824589811577025210u64));
+return Err(ParseError::ExcludedBranch(12217686503432178884u64));
 }
 };
 accum.push(next_elem)
@@ -23044,7 +23044,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4649034608147552416u64));
+return Err(ParseError::ExcludedBranch(8399572043096922156u64));
 }
 };
 accum.push(next_elem)
@@ -23079,7 +23079,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(7832192330748800109u64));
 }
 };
 _input.close_peek_context()?;
@@ -23092,7 +23092,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(9815657591077818003u64));
 }
 };
 accum.push(next_elem)
@@ -23129,7 +23129,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 }
 };
 accum.push(next_elem)
@@ -23152,10 +23152,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(16624020278885696461u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8094248233631264621u64)
+try_sub!(bit as u8, 48u8, 8179432974518885725u64)
 };
 let _o9 = {
 let bit = {
@@ -23163,10 +23163,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(5152282179373241998u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7230273548678969972u64)
+try_sub!(bit as u8, 48u8, 16909208071962620789u64)
 };
 let _o8 = {
 let bit = {
@@ -23174,10 +23174,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14903563845775542749u64));
+return Err(ParseError::ExcludedBranch(7933266403838225878u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9038350950373664822u64)
+try_sub!(bit as u8, 48u8, 9041056097467752267u64)
 };
 let _o7 = {
 let bit = {
@@ -23185,10 +23185,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7281717462557989541u64));
+return Err(ParseError::ExcludedBranch(5025197102194587315u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14681668243282477517u64)
+try_sub!(bit as u8, 48u8, 15252450768049745444u64)
 };
 let _o6 = {
 let bit = {
@@ -23196,10 +23196,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6209434968043366837u64));
+return Err(ParseError::ExcludedBranch(5599331855309773603u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12217686503432178884u64)
+try_sub!(bit as u8, 48u8, 2988545765690796708u64)
 };
 let _o5 = {
 let bit = {
@@ -23207,10 +23207,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(6215067399528787845u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9815657591077818003u64)
+try_sub!(bit as u8, 48u8, 3566920116549027235u64)
 };
 let _o4 = {
 let bit = {
@@ -23218,10 +23218,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(7979287392867129207u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14485842416732585139u64)
+try_sub!(bit as u8, 48u8, 16671136947067655757u64)
 };
 let _o3 = {
 let bit = {
@@ -23229,10 +23229,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8179432974518885725u64));
+return Err(ParseError::ExcludedBranch(10721249873135158334u64));
 }
 };
-try_sub!(bit as u8, 48u8, 13780055874544357936u64)
+try_sub!(bit as u8, 48u8, 441240706992005484u64)
 };
 let _o2 = {
 let bit = {
@@ -23240,10 +23240,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16909208071962620789u64));
+return Err(ParseError::ExcludedBranch(3950014938140253048u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12100308281236296642u64)
+try_sub!(bit as u8, 48u8, 11079395374415646537u64)
 };
 let _o1 = {
 let bit = {
@@ -23251,10 +23251,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9041056097467752267u64));
+return Err(ParseError::ExcludedBranch(757122060916971772u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3810055094392728880u64)
+try_sub!(bit as u8, 48u8, 8812292064350598352u64)
 };
 let _o0 = {
 let bit = {
@@ -23262,10 +23262,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15252450768049745444u64));
+return Err(ParseError::ExcludedBranch(10645729856418057640u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16437491640759399344u64)
+try_sub!(bit as u8, 48u8, 4316175446384649956u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23293,7 +23293,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2988545765690796708u64));
+return Err(ParseError::ExcludedBranch(13311790038092155306u64));
 }
 };
 _input.close_peek_context()?;
@@ -23306,7 +23306,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6215067399528787845u64));
+return Err(ParseError::ExcludedBranch(4598583460226006268u64));
 }
 };
 accum.push(next_elem)
@@ -23343,7 +23343,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17176374570344757031u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 accum.push(next_elem)
@@ -23378,7 +23378,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3566920116549027235u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 _input.close_peek_context()?;
@@ -23391,7 +23391,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 }
 };
 accum.push(next_elem)
@@ -23428,7 +23428,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3653195934333285574u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 accum.push(next_elem)
@@ -23457,7 +23457,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16671136947067655757u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 let arg1 = {
@@ -23465,7 +23465,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 let arg2 = {
@@ -23473,7 +23473,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8898504689444561451u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 let arg3 = {
@@ -23481,7 +23481,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(441240706992005484u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 let arg4 = {
@@ -23489,7 +23489,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 let arg5 = {
@@ -23497,7 +23497,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10046433636842398056u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23508,7 +23508,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11079395374415646537u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 let arg1 = {
@@ -23516,7 +23516,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 (arg0, arg1)
@@ -23555,7 +23555,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5986772336072340665u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 _input.close_peek_context()?;
@@ -23568,7 +23568,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8812292064350598352u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 accum.push(next_elem)
@@ -23605,7 +23605,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 accum.push(next_elem)
@@ -23640,7 +23640,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2908689796368760670u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 _input.close_peek_context()?;
@@ -23653,7 +23653,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4316175446384649956u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 accum.push(next_elem)
@@ -23690,7 +23690,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 accum.push(next_elem)
@@ -23720,7 +23720,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 accum.push(next_elem)
@@ -23774,7 +23774,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 accum.push(next_elem)
@@ -23808,7 +23808,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 accum.push(next_elem)
@@ -23827,7 +23827,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 })
 }
 
@@ -23866,7 +23866,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 }
 };
 accum.push(next_elem)
@@ -23902,7 +23902,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 accum.push(next_elem)
@@ -23933,7 +23933,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 _input.close_peek_context()?;
@@ -23946,7 +23946,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 accum.push(next_elem)
@@ -23988,7 +23988,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 accum.push(next_elem)
@@ -24014,7 +24014,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 _input.close_peek_context()?;
@@ -24028,7 +24028,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 let arg1 = {
@@ -24036,7 +24036,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -24048,7 +24048,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 let arg1 = {
@@ -24056,14 +24056,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 })
 }
@@ -24288,7 +24288,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 })
 } else {
 None
@@ -24310,7 +24310,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1310624491311340594u64));
+return Err(ParseError::FalsifiedWhere(17715157964684782708u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24342,7 +24342,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11225936372640404826u64));
+return Err(ParseError::FalsifiedWhere(9465826900165497155u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24478,7 +24478,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1029952099207838423u64));
+return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24512,7 +24512,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17327099206515189757u64));
+return Err(ParseError::FalsifiedWhere(6611121695530188940u64));
 }
 };
 let flags = {
@@ -24555,7 +24555,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14652068248613900169u64));
+return Err(ParseError::FalsifiedWhere(9660375186237087060u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24573,7 +24573,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3089242474000390105u64));
+return Err(ParseError::ExcludedBranch(11684704871632490773u64));
 }
 };
 let arg1 = {
@@ -24581,7 +24581,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8785324329127396734u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 }
 };
 let arg2 = {
@@ -24589,7 +24589,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 let arg3 = {
@@ -24597,7 +24597,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24610,7 +24610,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 }
 };
 let arg1 = {
@@ -24618,7 +24618,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 let arg2 = {
@@ -24626,7 +24626,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 let arg3 = {
@@ -24634,7 +24634,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24680,7 +24680,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 let arg1 = {
@@ -24688,7 +24688,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 let arg2 = {
@@ -24696,7 +24696,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 let arg3 = {
@@ -24704,7 +24704,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24728,7 +24728,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 let arg1 = {
@@ -24736,7 +24736,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 let arg2 = {
@@ -24744,7 +24744,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 let arg3 = {
@@ -24752,7 +24752,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24783,7 +24783,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 accum.push(next_elem)
@@ -24892,8 +24892,8 @@ accum
 png_trns::color_type_3(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 })
 }
@@ -24953,7 +24953,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 };
 val.clone()
@@ -24963,7 +24963,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9660375186237087060u64));
+return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -25021,8 +25021,8 @@ png_sbit_color_type_6 { sig_red_bits, sig_green_bits, sig_blue_bits, sig_alpha_b
 png_sbit::color_type_6(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(14908034280634314212u64));
 }
 })
 }
@@ -25038,7 +25038,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
+return Err(ParseError::FalsifiedWhere(3857251694269754536u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -25053,7 +25053,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(5041932778480497827u64));
 }
 };
 val.clone()
@@ -25063,7 +25063,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9710347097769530785u64));
+return Err(ParseError::ExcludedBranch(4514882359072253410u64));
 }
 };
 let compression_method = {
@@ -25071,7 +25071,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(13286112843953025473u64));
 }
 };
 let language_tag = {
@@ -25091,7 +25091,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(15541745679144160988u64));
 }
 };
 _input.close_peek_context()?;
@@ -25104,7 +25104,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(16366772103869684910u64));
 }
 };
 accum.push(next_elem)
@@ -25119,7 +25119,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(16354405091856567045u64));
 }
 };
 chars.clone()
@@ -25131,7 +25131,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(15047091743774256727u64));
 }
 };
 val.clone()
@@ -25222,7 +25222,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(89425857491903975u64));
 }
 };
 val.clone()
@@ -25264,7 +25264,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(4693381172248071257u64));
 }
 };
 val.clone()
@@ -25274,7 +25274,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(10755314521203959634u64));
 }
 };
 let compressed_text = {
@@ -25357,8 +25357,8 @@ png_trns_color_type_3 { palette_index }
 png_bkgd::color_type_3(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(6506136565977297327u64));
 }
 })
 }
@@ -25419,7 +25419,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(17617969929120925997u64));
 }
 };
 val.clone()
@@ -25429,7 +25429,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(9726369214549228587u64));
 }
 };
 let palette = match sample_depth {
@@ -25523,8 +25523,8 @@ accum
 png_splt_palette::sample_depth_u16(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(7323683635844484191u64));
 }
 };
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
@@ -26029,475 +26029,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(2785003688991605442u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(17143373953369837893u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(4319635423750959827u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(3022274272397071746u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(14869310993580240597u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(7391010474856587818u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(7025852844623144626u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(13513276483415770047u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+return Err(ParseError::ExcludedBranch(1292030895245088137u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5041932778480497827u64));
+return Err(ParseError::ExcludedBranch(8527564631842216417u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4514882359072253410u64));
+return Err(ParseError::ExcludedBranch(10545338643554355463u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13286112843953025473u64));
+return Err(ParseError::ExcludedBranch(3529321240709143928u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15541745679144160988u64));
+return Err(ParseError::ExcludedBranch(9481712747994656857u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16366772103869684910u64));
+return Err(ParseError::ExcludedBranch(11863749907612277673u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16354405091856567045u64));
+return Err(ParseError::ExcludedBranch(8408007422644693463u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15047091743774256727u64));
+return Err(ParseError::ExcludedBranch(2137824516769298342u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(89425857491903975u64));
+return Err(ParseError::ExcludedBranch(17504519908837839248u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4693381172248071257u64));
+return Err(ParseError::ExcludedBranch(5377488665469248769u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10755314521203959634u64));
+return Err(ParseError::ExcludedBranch(10179224889113195865u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+return Err(ParseError::ExcludedBranch(2526895115167988738u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+return Err(ParseError::ExcludedBranch(7617559532652678498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+return Err(ParseError::ExcludedBranch(4051432836859471288u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+return Err(ParseError::ExcludedBranch(14741532803131558705u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2785003688991605442u64));
+return Err(ParseError::ExcludedBranch(10276185770177327434u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17143373953369837893u64));
+return Err(ParseError::ExcludedBranch(16586067667342674799u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4319635423750959827u64));
+return Err(ParseError::ExcludedBranch(2497564037439806374u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3022274272397071746u64));
+return Err(ParseError::ExcludedBranch(8400230153663738380u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14869310993580240597u64));
+return Err(ParseError::ExcludedBranch(3348696109325747597u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7391010474856587818u64));
+return Err(ParseError::ExcludedBranch(3775958429611079664u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7025852844623144626u64));
+return Err(ParseError::ExcludedBranch(15402873290357121767u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13513276483415770047u64));
+return Err(ParseError::ExcludedBranch(7699494290217942468u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1292030895245088137u64));
+return Err(ParseError::ExcludedBranch(15920470819585350103u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8527564631842216417u64));
+return Err(ParseError::ExcludedBranch(2212229856396822503u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10545338643554355463u64));
+return Err(ParseError::ExcludedBranch(13487040053473546512u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3529321240709143928u64));
+return Err(ParseError::ExcludedBranch(7142800526810245879u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9481712747994656857u64));
+return Err(ParseError::ExcludedBranch(15228292911834498078u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11863749907612277673u64));
+return Err(ParseError::ExcludedBranch(14228769055716402588u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8408007422644693463u64));
+return Err(ParseError::ExcludedBranch(2096340590066926443u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2137824516769298342u64));
+return Err(ParseError::ExcludedBranch(6262990113977164585u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17504519908837839248u64));
+return Err(ParseError::ExcludedBranch(16057321717383774211u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5377488665469248769u64));
+return Err(ParseError::ExcludedBranch(5291563035461819971u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10179224889113195865u64));
+return Err(ParseError::ExcludedBranch(14334546370445091615u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2526895115167988738u64));
+return Err(ParseError::ExcludedBranch(18123524617814052121u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7617559532652678498u64));
+return Err(ParseError::ExcludedBranch(3966750415843992376u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4051432836859471288u64));
+return Err(ParseError::ExcludedBranch(3512844604428973098u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14741532803131558705u64));
+return Err(ParseError::ExcludedBranch(14732383712267459599u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10276185770177327434u64));
+return Err(ParseError::ExcludedBranch(13357689525249598011u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16586067667342674799u64));
+return Err(ParseError::ExcludedBranch(16153196263894316997u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2497564037439806374u64));
+return Err(ParseError::ExcludedBranch(11930340298772268405u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8400230153663738380u64));
+return Err(ParseError::ExcludedBranch(8442068294613883251u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3348696109325747597u64));
+return Err(ParseError::ExcludedBranch(6850311165997710199u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3775958429611079664u64));
+return Err(ParseError::ExcludedBranch(2310756498479603065u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15402873290357121767u64));
+return Err(ParseError::ExcludedBranch(5816243344835903905u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7699494290217942468u64));
+return Err(ParseError::ExcludedBranch(16915030153566842158u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15920470819585350103u64));
+return Err(ParseError::ExcludedBranch(5877293982949196624u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2212229856396822503u64));
+return Err(ParseError::ExcludedBranch(2440323998191641952u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13487040053473546512u64));
+return Err(ParseError::ExcludedBranch(3265375406401843811u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7142800526810245879u64));
+return Err(ParseError::ExcludedBranch(11458871772722170518u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15228292911834498078u64));
+return Err(ParseError::ExcludedBranch(12156808917241975156u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14228769055716402588u64));
+return Err(ParseError::ExcludedBranch(15301408058960503169u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2096340590066926443u64));
+return Err(ParseError::ExcludedBranch(4255813677013328811u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6262990113977164585u64));
+return Err(ParseError::ExcludedBranch(7761201277159812979u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16057321717383774211u64));
+return Err(ParseError::ExcludedBranch(15409834313606096443u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5291563035461819971u64));
+return Err(ParseError::ExcludedBranch(7572218778908935167u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14334546370445091615u64));
+return Err(ParseError::ExcludedBranch(12520942526725743695u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18123524617814052121u64));
+return Err(ParseError::ExcludedBranch(5905249956584638130u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3966750415843992376u64));
+return Err(ParseError::ExcludedBranch(8609603324479018835u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3512844604428973098u64));
+return Err(ParseError::ExcludedBranch(8973115486793444912u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14732383712267459599u64));
+return Err(ParseError::ExcludedBranch(2872401692234135189u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13357689525249598011u64));
+return Err(ParseError::ExcludedBranch(3556125603266802472u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16153196263894316997u64));
+return Err(ParseError::ExcludedBranch(16173438081116718978u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11930340298772268405u64));
+return Err(ParseError::ExcludedBranch(3532284049956758497u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8442068294613883251u64));
+return Err(ParseError::ExcludedBranch(1214015012285792661u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6850311165997710199u64));
+return Err(ParseError::ExcludedBranch(18287039256282529512u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2310756498479603065u64));
+return Err(ParseError::ExcludedBranch(6040541316788286267u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5816243344835903905u64));
+return Err(ParseError::ExcludedBranch(6926344996361682930u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16915030153566842158u64));
+return Err(ParseError::ExcludedBranch(1335666833550050804u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5877293982949196624u64));
+return Err(ParseError::ExcludedBranch(12949211704949756849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2440323998191641952u64));
+return Err(ParseError::ExcludedBranch(4317621489266312319u64));
 }
 };
 _input.close_peek_context()?;
@@ -26512,7 +26512,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3265375406401843811u64));
+return Err(ParseError::ExcludedBranch(868434092978367357u64));
 }
 };
 accum.push(next_elem)
@@ -27007,475 +27007,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11458871772722170518u64));
+return Err(ParseError::ExcludedBranch(496554245154466536u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+return Err(ParseError::ExcludedBranch(8244423856248085319u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15301408058960503169u64));
+return Err(ParseError::ExcludedBranch(14587337454519331439u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4255813677013328811u64));
+return Err(ParseError::ExcludedBranch(17469688165057057832u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7761201277159812979u64));
+return Err(ParseError::ExcludedBranch(17175946860967673146u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15409834313606096443u64));
+return Err(ParseError::ExcludedBranch(4411296728399804345u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7572218778908935167u64));
+return Err(ParseError::ExcludedBranch(13980028702310773940u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12520942526725743695u64));
+return Err(ParseError::ExcludedBranch(4312000683241916062u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5905249956584638130u64));
+return Err(ParseError::ExcludedBranch(3334424754000117797u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8609603324479018835u64));
+return Err(ParseError::ExcludedBranch(527013363415661133u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8973115486793444912u64));
+return Err(ParseError::ExcludedBranch(4717292700030555590u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2872401692234135189u64));
+return Err(ParseError::ExcludedBranch(653172816195928449u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3556125603266802472u64));
+return Err(ParseError::ExcludedBranch(581976537271693173u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16173438081116718978u64));
+return Err(ParseError::ExcludedBranch(10727170711560529872u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3532284049956758497u64));
+return Err(ParseError::ExcludedBranch(17095884813960222885u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1214015012285792661u64));
+return Err(ParseError::ExcludedBranch(974442582679666596u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18287039256282529512u64));
+return Err(ParseError::ExcludedBranch(4054889295781446756u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6040541316788286267u64));
+return Err(ParseError::ExcludedBranch(14775695284177607002u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6926344996361682930u64));
+return Err(ParseError::ExcludedBranch(6914153644311469309u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1335666833550050804u64));
+return Err(ParseError::ExcludedBranch(11188141958235814565u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12949211704949756849u64));
+return Err(ParseError::ExcludedBranch(15180040648844909945u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4317621489266312319u64));
+return Err(ParseError::ExcludedBranch(18312372211249290289u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(868434092978367357u64));
+return Err(ParseError::ExcludedBranch(6298802191889347847u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(496554245154466536u64));
+return Err(ParseError::ExcludedBranch(11017185023542530489u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8244423856248085319u64));
+return Err(ParseError::ExcludedBranch(15395924218065814216u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14587337454519331439u64));
+return Err(ParseError::ExcludedBranch(14060832500024730160u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17469688165057057832u64));
+return Err(ParseError::ExcludedBranch(3344470983013526080u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17175946860967673146u64));
+return Err(ParseError::ExcludedBranch(10251322642913008199u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4411296728399804345u64));
+return Err(ParseError::ExcludedBranch(10455173543833790502u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13980028702310773940u64));
+return Err(ParseError::ExcludedBranch(1789963736344690987u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4312000683241916062u64));
+return Err(ParseError::ExcludedBranch(15079752956117840734u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3334424754000117797u64));
+return Err(ParseError::ExcludedBranch(7980438082889912554u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(527013363415661133u64));
+return Err(ParseError::ExcludedBranch(6840264564700035644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4717292700030555590u64));
+return Err(ParseError::ExcludedBranch(2232617280930402416u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(653172816195928449u64));
+return Err(ParseError::ExcludedBranch(10367781439645737926u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(581976537271693173u64));
+return Err(ParseError::ExcludedBranch(6016311883578211466u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10727170711560529872u64));
+return Err(ParseError::ExcludedBranch(14984769167642974435u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17095884813960222885u64));
+return Err(ParseError::ExcludedBranch(11733915986279978987u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(974442582679666596u64));
+return Err(ParseError::ExcludedBranch(12796096677294114859u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4054889295781446756u64));
+return Err(ParseError::ExcludedBranch(4290849149416714172u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14775695284177607002u64));
+return Err(ParseError::ExcludedBranch(2598935692633451852u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6914153644311469309u64));
+return Err(ParseError::ExcludedBranch(8938360652744148620u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11188141958235814565u64));
+return Err(ParseError::ExcludedBranch(3379987508464424555u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15180040648844909945u64));
+return Err(ParseError::ExcludedBranch(11173052675913205247u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18312372211249290289u64));
+return Err(ParseError::ExcludedBranch(1780493074893517013u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6298802191889347847u64));
+return Err(ParseError::ExcludedBranch(5013701440573848944u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11017185023542530489u64));
+return Err(ParseError::ExcludedBranch(15508559755986719975u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15395924218065814216u64));
+return Err(ParseError::ExcludedBranch(14782609537615230269u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14060832500024730160u64));
+return Err(ParseError::ExcludedBranch(17984802637964449391u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3344470983013526080u64));
+return Err(ParseError::ExcludedBranch(4337320827937013231u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10251322642913008199u64));
+return Err(ParseError::ExcludedBranch(9730514595131843432u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10455173543833790502u64));
+return Err(ParseError::ExcludedBranch(11851311358763079517u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1789963736344690987u64));
+return Err(ParseError::ExcludedBranch(4195586632355556000u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15079752956117840734u64));
+return Err(ParseError::ExcludedBranch(3595083506735372973u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7980438082889912554u64));
+return Err(ParseError::ExcludedBranch(7160308966995483862u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6840264564700035644u64));
+return Err(ParseError::ExcludedBranch(10995965655495216468u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2232617280930402416u64));
+return Err(ParseError::ExcludedBranch(329678914966083835u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10367781439645737926u64));
+return Err(ParseError::ExcludedBranch(6740511944232229269u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6016311883578211466u64));
+return Err(ParseError::ExcludedBranch(16842149192073737461u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14984769167642974435u64));
+return Err(ParseError::ExcludedBranch(2734069901426030304u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11733915986279978987u64));
+return Err(ParseError::ExcludedBranch(8313738771561634204u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12796096677294114859u64));
+return Err(ParseError::ExcludedBranch(5782291498890001703u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4290849149416714172u64));
+return Err(ParseError::ExcludedBranch(10699246393255895644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2598935692633451852u64));
+return Err(ParseError::ExcludedBranch(16725113430369695556u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8938360652744148620u64));
+return Err(ParseError::ExcludedBranch(10581544802310072854u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3379987508464424555u64));
+return Err(ParseError::ExcludedBranch(2930236810929305906u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11173052675913205247u64));
+return Err(ParseError::ExcludedBranch(9788088961065186348u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1780493074893517013u64));
+return Err(ParseError::ExcludedBranch(13475201244121026739u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5013701440573848944u64));
+return Err(ParseError::ExcludedBranch(10514680212862927148u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15508559755986719975u64));
+return Err(ParseError::ExcludedBranch(1404288588910574651u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14782609537615230269u64));
+return Err(ParseError::ExcludedBranch(9722140062746187322u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17984802637964449391u64));
+return Err(ParseError::ExcludedBranch(14672290401516300248u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4337320827937013231u64));
+return Err(ParseError::ExcludedBranch(1570732024996461745u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9730514595131843432u64));
+return Err(ParseError::ExcludedBranch(3970524133912495743u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11851311358763079517u64));
+return Err(ParseError::ExcludedBranch(10022572355386706896u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4195586632355556000u64));
+return Err(ParseError::ExcludedBranch(7175325427369635964u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3595083506735372973u64));
+return Err(ParseError::ExcludedBranch(10941190781838111798u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7160308966995483862u64));
+return Err(ParseError::ExcludedBranch(8533828000951561331u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10995965655495216468u64));
+return Err(ParseError::ExcludedBranch(7620563226324297760u64));
 }
 };
 _input.close_peek_context()?;
@@ -27490,7 +27490,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(329678914966083835u64));
+return Err(ParseError::ExcludedBranch(3141147280724933447u64));
 }
 };
 accum.push(next_elem)
@@ -27516,7 +27516,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6740511944232229269u64));
+return Err(ParseError::FalsifiedWhere(5155365750119375266u64));
 }
 };
 let flags = {
@@ -28030,475 +28030,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+return Err(ParseError::ExcludedBranch(6019636780841875619u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2734069901426030304u64));
+return Err(ParseError::ExcludedBranch(9286045119570450224u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8313738771561634204u64));
+return Err(ParseError::ExcludedBranch(12351156548319118754u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5782291498890001703u64));
+return Err(ParseError::ExcludedBranch(16002368984748306955u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10699246393255895644u64));
+return Err(ParseError::ExcludedBranch(2518353173875372183u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16725113430369695556u64));
+return Err(ParseError::ExcludedBranch(1057280760989719477u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10581544802310072854u64));
+return Err(ParseError::ExcludedBranch(4360542291358407189u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2930236810929305906u64));
+return Err(ParseError::ExcludedBranch(11728165168471348185u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9788088961065186348u64));
+return Err(ParseError::ExcludedBranch(10495009576779598530u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13475201244121026739u64));
+return Err(ParseError::ExcludedBranch(7128967683436470476u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10514680212862927148u64));
+return Err(ParseError::ExcludedBranch(3036714361878569528u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1404288588910574651u64));
+return Err(ParseError::ExcludedBranch(17797183748027644744u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9722140062746187322u64));
+return Err(ParseError::ExcludedBranch(4766620025042958433u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14672290401516300248u64));
+return Err(ParseError::ExcludedBranch(3832366084378679427u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1570732024996461745u64));
+return Err(ParseError::ExcludedBranch(12230053902523648559u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3970524133912495743u64));
+return Err(ParseError::ExcludedBranch(6309917041149428265u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10022572355386706896u64));
+return Err(ParseError::ExcludedBranch(14708340496221370872u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7175325427369635964u64));
+return Err(ParseError::ExcludedBranch(8149951888585961823u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10941190781838111798u64));
+return Err(ParseError::ExcludedBranch(9665308631980535174u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8533828000951561331u64));
+return Err(ParseError::ExcludedBranch(17114848294724579474u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7620563226324297760u64));
+return Err(ParseError::ExcludedBranch(6471433373632717886u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3141147280724933447u64));
+return Err(ParseError::ExcludedBranch(11488186652992817125u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5155365750119375266u64));
+return Err(ParseError::ExcludedBranch(16428598146864409139u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6019636780841875619u64));
+return Err(ParseError::ExcludedBranch(11934620222090497034u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9286045119570450224u64));
+return Err(ParseError::ExcludedBranch(7597388605883543966u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12351156548319118754u64));
+return Err(ParseError::ExcludedBranch(1942606498606899849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16002368984748306955u64));
+return Err(ParseError::ExcludedBranch(9288520242296510642u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2518353173875372183u64));
+return Err(ParseError::ExcludedBranch(12753818979092594971u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1057280760989719477u64));
+return Err(ParseError::ExcludedBranch(9662462399070735352u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4360542291358407189u64));
+return Err(ParseError::ExcludedBranch(8414850703985147087u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11728165168471348185u64));
+return Err(ParseError::ExcludedBranch(14428558544277089677u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10495009576779598530u64));
+return Err(ParseError::ExcludedBranch(17505260505493155057u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7128967683436470476u64));
+return Err(ParseError::ExcludedBranch(4244096627290639074u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3036714361878569528u64));
+return Err(ParseError::ExcludedBranch(16278372111013231116u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17797183748027644744u64));
+return Err(ParseError::ExcludedBranch(4797145928961714098u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4766620025042958433u64));
+return Err(ParseError::ExcludedBranch(11396441833338683368u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3832366084378679427u64));
+return Err(ParseError::ExcludedBranch(18000244536401340529u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12230053902523648559u64));
+return Err(ParseError::ExcludedBranch(17499296848696657524u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6309917041149428265u64));
+return Err(ParseError::ExcludedBranch(17871409524597489995u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14708340496221370872u64));
+return Err(ParseError::ExcludedBranch(18319329181163975393u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8149951888585961823u64));
+return Err(ParseError::ExcludedBranch(9728697411637566730u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9665308631980535174u64));
+return Err(ParseError::ExcludedBranch(9691647707184281179u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17114848294724579474u64));
+return Err(ParseError::ExcludedBranch(7972156773864461481u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6471433373632717886u64));
+return Err(ParseError::ExcludedBranch(11074874806330017418u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11488186652992817125u64));
+return Err(ParseError::ExcludedBranch(12662813720965160010u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16428598146864409139u64));
+return Err(ParseError::ExcludedBranch(3243138897542356980u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11934620222090497034u64));
+return Err(ParseError::ExcludedBranch(15920917552321559809u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7597388605883543966u64));
+return Err(ParseError::ExcludedBranch(835240278964504247u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1942606498606899849u64));
+return Err(ParseError::ExcludedBranch(7150174851274887183u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9288520242296510642u64));
+return Err(ParseError::ExcludedBranch(11306355108769900243u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12753818979092594971u64));
+return Err(ParseError::ExcludedBranch(9864490923722431849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9662462399070735352u64));
+return Err(ParseError::ExcludedBranch(1995664400520545068u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8414850703985147087u64));
+return Err(ParseError::ExcludedBranch(14904826071154862403u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14428558544277089677u64));
+return Err(ParseError::ExcludedBranch(9819888267966403254u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17505260505493155057u64));
+return Err(ParseError::ExcludedBranch(9848248130448711783u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4244096627290639074u64));
+return Err(ParseError::ExcludedBranch(13072404838946064765u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16278372111013231116u64));
+return Err(ParseError::ExcludedBranch(608962121954693839u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4797145928961714098u64));
+return Err(ParseError::ExcludedBranch(4003079682566975393u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11396441833338683368u64));
+return Err(ParseError::ExcludedBranch(4315160623525052581u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18000244536401340529u64));
+return Err(ParseError::ExcludedBranch(1862457564087794359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17499296848696657524u64));
+return Err(ParseError::ExcludedBranch(4725257428709613290u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17871409524597489995u64));
+return Err(ParseError::ExcludedBranch(11823569341425521789u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18319329181163975393u64));
+return Err(ParseError::ExcludedBranch(14474361861190022573u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9728697411637566730u64));
+return Err(ParseError::ExcludedBranch(8440332211549640930u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9691647707184281179u64));
+return Err(ParseError::ExcludedBranch(13045651918551022996u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7972156773864461481u64));
+return Err(ParseError::ExcludedBranch(12507789284617859731u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11074874806330017418u64));
+return Err(ParseError::ExcludedBranch(4636203914394120912u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12662813720965160010u64));
+return Err(ParseError::ExcludedBranch(12770885481695079655u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3243138897542356980u64));
+return Err(ParseError::ExcludedBranch(5713736954960046494u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15920917552321559809u64));
+return Err(ParseError::ExcludedBranch(5286459060741837465u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(835240278964504247u64));
+return Err(ParseError::ExcludedBranch(10857757036842967573u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7150174851274887183u64));
+return Err(ParseError::ExcludedBranch(8347358143797316202u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11306355108769900243u64));
+return Err(ParseError::ExcludedBranch(9289217078927880343u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9864490923722431849u64));
+return Err(ParseError::ExcludedBranch(7619374930571283120u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1995664400520545068u64));
+return Err(ParseError::ExcludedBranch(5502272810018950495u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14904826071154862403u64));
+return Err(ParseError::ExcludedBranch(9422091606538556682u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9819888267966403254u64));
+return Err(ParseError::ExcludedBranch(1986031727359985319u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9848248130448711783u64));
+return Err(ParseError::ExcludedBranch(2609726213773413101u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13072404838946064765u64));
+return Err(ParseError::ExcludedBranch(4688564412461098550u64));
 }
 };
 _input.close_peek_context()?;
@@ -28513,7 +28513,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(608962121954693839u64));
+return Err(ParseError::ExcludedBranch(4942686269660057715u64));
 }
 };
 accum.push(next_elem)
@@ -29008,475 +29008,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4003079682566975393u64));
+return Err(ParseError::ExcludedBranch(9251320185524837870u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+return Err(ParseError::ExcludedBranch(16934907723271638747u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1862457564087794359u64));
+return Err(ParseError::ExcludedBranch(12709578918531114377u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4725257428709613290u64));
+return Err(ParseError::ExcludedBranch(4227980562164448700u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11823569341425521789u64));
+return Err(ParseError::ExcludedBranch(6852038687184722387u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14474361861190022573u64));
+return Err(ParseError::ExcludedBranch(18441633166538026093u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8440332211549640930u64));
+return Err(ParseError::ExcludedBranch(401788761305210720u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13045651918551022996u64));
+return Err(ParseError::ExcludedBranch(5252251088830583126u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12507789284617859731u64));
+return Err(ParseError::ExcludedBranch(5396814765406749711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4636203914394120912u64));
+return Err(ParseError::ExcludedBranch(12786091976415550822u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12770885481695079655u64));
+return Err(ParseError::ExcludedBranch(15224635086995724042u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5713736954960046494u64));
+return Err(ParseError::ExcludedBranch(12911570055982528377u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5286459060741837465u64));
+return Err(ParseError::ExcludedBranch(17578303967306014514u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10857757036842967573u64));
+return Err(ParseError::ExcludedBranch(7236895128762201498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8347358143797316202u64));
+return Err(ParseError::ExcludedBranch(10396295304006156759u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9289217078927880343u64));
+return Err(ParseError::ExcludedBranch(14603388329461445014u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7619374930571283120u64));
+return Err(ParseError::ExcludedBranch(15092052115449480204u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5502272810018950495u64));
+return Err(ParseError::ExcludedBranch(5644646321622228807u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9422091606538556682u64));
+return Err(ParseError::ExcludedBranch(12876869868341544086u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1986031727359985319u64));
+return Err(ParseError::ExcludedBranch(6757475294452472580u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2609726213773413101u64));
+return Err(ParseError::ExcludedBranch(5316076842439816359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4688564412461098550u64));
+return Err(ParseError::ExcludedBranch(13241229060561103069u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4942686269660057715u64));
+return Err(ParseError::ExcludedBranch(8896324603808149952u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9251320185524837870u64));
+return Err(ParseError::ExcludedBranch(8480214967847684808u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16934907723271638747u64));
+return Err(ParseError::ExcludedBranch(4089331332020821320u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12709578918531114377u64));
+return Err(ParseError::ExcludedBranch(7660172056721883940u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4227980562164448700u64));
+return Err(ParseError::ExcludedBranch(8118664158941399609u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6852038687184722387u64));
+return Err(ParseError::ExcludedBranch(11259402406166723834u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18441633166538026093u64));
+return Err(ParseError::ExcludedBranch(2562653558681619679u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(401788761305210720u64));
+return Err(ParseError::ExcludedBranch(9066549901844041194u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5252251088830583126u64));
+return Err(ParseError::ExcludedBranch(17788403991563985894u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5396814765406749711u64));
+return Err(ParseError::ExcludedBranch(14014946361797352706u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12786091976415550822u64));
+return Err(ParseError::ExcludedBranch(17148278567107839372u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15224635086995724042u64));
+return Err(ParseError::ExcludedBranch(10059971034460660304u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12911570055982528377u64));
+return Err(ParseError::ExcludedBranch(11566301548302897286u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17578303967306014514u64));
+return Err(ParseError::ExcludedBranch(4726882489015010540u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7236895128762201498u64));
+return Err(ParseError::ExcludedBranch(16731067715008063623u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10396295304006156759u64));
+return Err(ParseError::ExcludedBranch(10050470520268747158u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14603388329461445014u64));
+return Err(ParseError::ExcludedBranch(7028862034699171644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15092052115449480204u64));
+return Err(ParseError::ExcludedBranch(6768457941542394460u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5644646321622228807u64));
+return Err(ParseError::ExcludedBranch(3336832804021932765u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12876869868341544086u64));
+return Err(ParseError::ExcludedBranch(14287222125204946454u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6757475294452472580u64));
+return Err(ParseError::ExcludedBranch(14784334396256787566u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5316076842439816359u64));
+return Err(ParseError::ExcludedBranch(17975519714191498979u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13241229060561103069u64));
+return Err(ParseError::ExcludedBranch(15547793456796641064u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8896324603808149952u64));
+return Err(ParseError::ExcludedBranch(2708015872450907711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8480214967847684808u64));
+return Err(ParseError::ExcludedBranch(17628659998315744600u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4089331332020821320u64));
+return Err(ParseError::ExcludedBranch(7574719322668410505u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7660172056721883940u64));
+return Err(ParseError::ExcludedBranch(6886530205512451724u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8118664158941399609u64));
+return Err(ParseError::ExcludedBranch(4782096577080450146u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11259402406166723834u64));
+return Err(ParseError::ExcludedBranch(14577481400621526493u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2562653558681619679u64));
+return Err(ParseError::ExcludedBranch(14148913971033431093u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066549901844041194u64));
+return Err(ParseError::ExcludedBranch(17190949120592669315u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17788403991563985894u64));
+return Err(ParseError::ExcludedBranch(8699787504309122591u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14014946361797352706u64));
+return Err(ParseError::ExcludedBranch(78099073500381561u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17148278567107839372u64));
+return Err(ParseError::ExcludedBranch(5364461768558038471u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10059971034460660304u64));
+return Err(ParseError::ExcludedBranch(7135191863324865081u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11566301548302897286u64));
+return Err(ParseError::ExcludedBranch(5733684513012333041u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4726882489015010540u64));
+return Err(ParseError::ExcludedBranch(3269600573864009399u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16731067715008063623u64));
+return Err(ParseError::ExcludedBranch(16604650314446872341u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10050470520268747158u64));
+return Err(ParseError::ExcludedBranch(14275129881911283147u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7028862034699171644u64));
+return Err(ParseError::ExcludedBranch(8473763373531540844u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6768457941542394460u64));
+return Err(ParseError::ExcludedBranch(9532564966458988001u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3336832804021932765u64));
+return Err(ParseError::ExcludedBranch(1456571545446476568u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14287222125204946454u64));
+return Err(ParseError::ExcludedBranch(14908888453225293887u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14784334396256787566u64));
+return Err(ParseError::ExcludedBranch(4384065895993710795u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17975519714191498979u64));
+return Err(ParseError::ExcludedBranch(14063858022942822585u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15547793456796641064u64));
+return Err(ParseError::ExcludedBranch(7083101893872508858u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2708015872450907711u64));
+return Err(ParseError::ExcludedBranch(15979415359593570628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17628659998315744600u64));
+return Err(ParseError::ExcludedBranch(17922878356929717082u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7574719322668410505u64));
+return Err(ParseError::ExcludedBranch(15321253101048235163u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6886530205512451724u64));
+return Err(ParseError::ExcludedBranch(14285291594842403582u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4782096577080450146u64));
+return Err(ParseError::ExcludedBranch(7161350271661739096u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14577481400621526493u64));
+return Err(ParseError::ExcludedBranch(14445026714989735755u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14148913971033431093u64));
+return Err(ParseError::ExcludedBranch(7573348369521592997u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17190949120592669315u64));
+return Err(ParseError::ExcludedBranch(2912602219218223367u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8699787504309122591u64));
+return Err(ParseError::ExcludedBranch(15885886181646629118u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(78099073500381561u64));
+return Err(ParseError::ExcludedBranch(13594649006224468849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5364461768558038471u64));
+return Err(ParseError::ExcludedBranch(14349391981174483355u64));
 }
 };
 _input.close_peek_context()?;
@@ -29491,7 +29491,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7135191863324865081u64));
+return Err(ParseError::ExcludedBranch(10927780046062734427u64));
 }
 };
 accum.push(next_elem)
@@ -29550,7 +29550,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5733684513012333041u64));
+return Err(ParseError::ExcludedBranch(13819997351842221509u64));
 }
 };
 _input.close_peek_context()?;
@@ -29583,7 +29583,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3269600573864009399u64));
+return Err(ParseError::FalsifiedWhere(11959902760514814588u64));
 }
 };
 let flags = {
@@ -30238,475 +30238,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+return Err(ParseError::ExcludedBranch(14114750189009003637u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14275129881911283147u64));
+return Err(ParseError::ExcludedBranch(12268471799124361536u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+return Err(ParseError::ExcludedBranch(9620443865397033050u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+return Err(ParseError::ExcludedBranch(3999778194527899420u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1456571545446476568u64));
+return Err(ParseError::ExcludedBranch(3933597635930613605u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14908888453225293887u64));
+return Err(ParseError::ExcludedBranch(5638313771627483501u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4384065895993710795u64));
+return Err(ParseError::ExcludedBranch(1105171745447487568u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14063858022942822585u64));
+return Err(ParseError::ExcludedBranch(646997207007428137u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7083101893872508858u64));
+return Err(ParseError::ExcludedBranch(6351919260209655786u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15979415359593570628u64));
+return Err(ParseError::ExcludedBranch(552953513858366451u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17922878356929717082u64));
+return Err(ParseError::ExcludedBranch(17332407069754301555u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15321253101048235163u64));
+return Err(ParseError::ExcludedBranch(14279133095670415871u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14285291594842403582u64));
+return Err(ParseError::ExcludedBranch(7347749870002275487u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7161350271661739096u64));
+return Err(ParseError::ExcludedBranch(10748847049349746078u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14445026714989735755u64));
+return Err(ParseError::ExcludedBranch(14220958138979104104u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7573348369521592997u64));
+return Err(ParseError::ExcludedBranch(17741760072369420240u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2912602219218223367u64));
+return Err(ParseError::ExcludedBranch(12223407337737822059u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15885886181646629118u64));
+return Err(ParseError::ExcludedBranch(6072942808717419822u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13594649006224468849u64));
+return Err(ParseError::ExcludedBranch(15560056883377919848u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14349391981174483355u64));
+return Err(ParseError::ExcludedBranch(7977419944699061624u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10927780046062734427u64));
+return Err(ParseError::ExcludedBranch(8323252642575612937u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13819997351842221509u64));
+return Err(ParseError::ExcludedBranch(11678443062630698028u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11959902760514814588u64));
+return Err(ParseError::ExcludedBranch(14832405617500840744u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14114750189009003637u64));
+return Err(ParseError::ExcludedBranch(1398536204687975789u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12268471799124361536u64));
+return Err(ParseError::ExcludedBranch(7336714497745271452u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9620443865397033050u64));
+return Err(ParseError::ExcludedBranch(4152914559762097168u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3999778194527899420u64));
+return Err(ParseError::ExcludedBranch(1152534299541961510u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3933597635930613605u64));
+return Err(ParseError::ExcludedBranch(5095757730543354711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5638313771627483501u64));
+return Err(ParseError::ExcludedBranch(4668055697655854201u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1105171745447487568u64));
+return Err(ParseError::ExcludedBranch(6515957116553005671u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(646997207007428137u64));
+return Err(ParseError::ExcludedBranch(2017059186547121525u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6351919260209655786u64));
+return Err(ParseError::ExcludedBranch(11789784461021426583u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(552953513858366451u64));
+return Err(ParseError::ExcludedBranch(16022216421479351095u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17332407069754301555u64));
+return Err(ParseError::ExcludedBranch(15337804701822118436u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14279133095670415871u64));
+return Err(ParseError::ExcludedBranch(2750471357152633230u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7347749870002275487u64));
+return Err(ParseError::ExcludedBranch(8306706226429158303u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10748847049349746078u64));
+return Err(ParseError::ExcludedBranch(8033982984919675631u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14220958138979104104u64));
+return Err(ParseError::ExcludedBranch(7258731811542513498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17741760072369420240u64));
+return Err(ParseError::ExcludedBranch(1283209893442238385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12223407337737822059u64));
+return Err(ParseError::ExcludedBranch(1920187793319100008u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6072942808717419822u64));
+return Err(ParseError::ExcludedBranch(7474037925185307628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15560056883377919848u64));
+return Err(ParseError::ExcludedBranch(4475730102931494177u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7977419944699061624u64));
+return Err(ParseError::ExcludedBranch(17780439059155340308u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8323252642575612937u64));
+return Err(ParseError::ExcludedBranch(6739127967943113267u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11678443062630698028u64));
+return Err(ParseError::ExcludedBranch(10170756778737993654u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14832405617500840744u64));
+return Err(ParseError::ExcludedBranch(14306133355400503306u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1398536204687975789u64));
+return Err(ParseError::ExcludedBranch(8902666087419502325u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7336714497745271452u64));
+return Err(ParseError::ExcludedBranch(10248009767256971850u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4152914559762097168u64));
+return Err(ParseError::ExcludedBranch(7807103255128873628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1152534299541961510u64));
+return Err(ParseError::ExcludedBranch(7840596951976883698u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5095757730543354711u64));
+return Err(ParseError::ExcludedBranch(8004105446758774533u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4668055697655854201u64));
+return Err(ParseError::ExcludedBranch(12569316739694558801u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6515957116553005671u64));
+return Err(ParseError::ExcludedBranch(2967911718584065013u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2017059186547121525u64));
+return Err(ParseError::ExcludedBranch(7227788188777836434u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11789784461021426583u64));
+return Err(ParseError::ExcludedBranch(2859130192484418172u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16022216421479351095u64));
+return Err(ParseError::ExcludedBranch(12550558264664848853u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15337804701822118436u64));
+return Err(ParseError::ExcludedBranch(16954835414833850385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2750471357152633230u64));
+return Err(ParseError::ExcludedBranch(1891774877762105457u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8306706226429158303u64));
+return Err(ParseError::ExcludedBranch(13705211812356460160u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8033982984919675631u64));
+return Err(ParseError::ExcludedBranch(5515497093089591991u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7258731811542513498u64));
+return Err(ParseError::ExcludedBranch(1328880024623199753u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1283209893442238385u64));
+return Err(ParseError::ExcludedBranch(6882184431082022206u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1920187793319100008u64));
+return Err(ParseError::ExcludedBranch(3998072683184925592u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7474037925185307628u64));
+return Err(ParseError::ExcludedBranch(29850628954056690u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4475730102931494177u64));
+return Err(ParseError::ExcludedBranch(7279615132236188739u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17780439059155340308u64));
+return Err(ParseError::ExcludedBranch(17636172564439370608u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6739127967943113267u64));
+return Err(ParseError::ExcludedBranch(13863787293436782080u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10170756778737993654u64));
+return Err(ParseError::ExcludedBranch(16714498072262546943u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14306133355400503306u64));
+return Err(ParseError::ExcludedBranch(2157707350523277837u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8902666087419502325u64));
+return Err(ParseError::ExcludedBranch(15134222038433106385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10248009767256971850u64));
+return Err(ParseError::ExcludedBranch(14950271805613481359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7807103255128873628u64));
+return Err(ParseError::ExcludedBranch(5499566165243611472u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7840596951976883698u64));
+return Err(ParseError::ExcludedBranch(11265176092564100083u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8004105446758774533u64));
+return Err(ParseError::ExcludedBranch(14916894554939814670u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12569316739694558801u64));
+return Err(ParseError::ExcludedBranch(10473830801714814973u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2967911718584065013u64));
+return Err(ParseError::ExcludedBranch(5334325531610156978u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7227788188777836434u64));
+return Err(ParseError::ExcludedBranch(16975008930446149745u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2859130192484418172u64));
+return Err(ParseError::ExcludedBranch(760820951392925727u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12550558264664848853u64));
+return Err(ParseError::ExcludedBranch(14363790737598139216u64));
 }
 };
 _input.close_peek_context()?;
@@ -30721,7 +30721,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16954835414833850385u64));
+return Err(ParseError::ExcludedBranch(4600414761378562541u64));
 }
 };
 accum.push(next_elem)
@@ -30747,7 +30747,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1891774877762105457u64));
+return Err(ParseError::FalsifiedWhere(18313399323903636110u64));
 }
 };
 let flags = {
@@ -30783,7 +30783,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13705211812356460160u64));
+return Err(ParseError::ExcludedBranch(15786118691017431738u64));
 }
 };
 let arg1 = {
@@ -30791,7 +30791,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5515497093089591991u64));
+return Err(ParseError::ExcludedBranch(16165934354425559621u64));
 }
 };
 let arg2 = {
@@ -30799,7 +30799,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1328880024623199753u64));
+return Err(ParseError::ExcludedBranch(16399036514137665776u64));
 }
 };
 let arg3 = {
@@ -30807,7 +30807,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6882184431082022206u64));
+return Err(ParseError::ExcludedBranch(7931358881575056193u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30848,7 +30848,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 29850628954056690u64)
+try_sub!(x, 16u64, 11515797873012483658u64)
 },
 
 _ => {
@@ -31026,7 +31026,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 17636172564439370608u64)
+try_sub!(x, 16u64, 8076978189295213982u64)
 },
 
 _ => {
@@ -31060,7 +31060,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16714498072262546943u64)
+try_sub!(x, 16u64, 14687724984806605719u64)
 },
 
 _ => {
@@ -31220,8 +31220,8 @@ mpeg4_mvhd_data_fields_version1 { creation_time, modification_time, timescale, d
 mpeg4_mvhd_data_fields::version1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(1378805635639824117u64));
 }
 };
 let rate = {
@@ -31293,7 +31293,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15134222038433106385u64)
+try_sub!(x, 16u64, 8407356061009412694u64)
 },
 
 _ => {
@@ -31419,7 +31419,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5499566165243611472u64)
+try_sub!(x, 16u64, 13752480002470540422u64)
 },
 
 _ => {
@@ -31557,8 +31557,8 @@ mpeg4_tkhd_data_fields_version1 { creation_time, modification_time, track_ID, re
 mpeg4_tkhd_data_fields::version1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17107648091243309207u64));
 }
 };
 let reserved2 = {
@@ -31627,7 +31627,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14916894554939814670u64)
+try_sub!(x, 16u64, 14539762430836305896u64)
 },
 
 _ => {
@@ -31695,7 +31695,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5334325531610156978u64)
+try_sub!(x, 16u64, 2662265345698212949u64)
 },
 
 _ => {
@@ -31823,7 +31823,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16975008930446149745u64));
+return Err(ParseError::ExcludedBranch(3344648651879382526u64));
 }
 };
 _input.close_peek_context()?;
@@ -31836,7 +31836,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(760820951392925727u64));
+return Err(ParseError::ExcludedBranch(8599210436172030522u64));
 }
 };
 accum.push(next_elem)
@@ -31851,7 +31851,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14363790737598139216u64));
+return Err(ParseError::ExcludedBranch(3484767027554133518u64));
 }
 };
 chars.clone()
@@ -31910,8 +31910,8 @@ mpeg4_mvhd_data_fields_version1 { creation_time, modification_time, timescale, d
 mpeg4_mvhd_data_fields::version1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(15403934492100194569u64));
 }
 };
 let language = {
@@ -31942,7 +31942,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 18313399323903636110u64)
+try_sub!(x, 16u64, 2288772415159374970u64)
 },
 
 _ => {
@@ -32110,7 +32110,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16165934354425559621u64)
+try_sub!(x, 16u64, 6279087434444973374u64)
 },
 
 _ => {
@@ -32178,7 +32178,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7931358881575056193u64)
+try_sub!(x, 16u64, 15601622509425384091u64)
 },
 
 _ => {
@@ -32587,7 +32587,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11515797873012483658u64)
+try_sub!(x, 16u64, 4569970360394099475u64)
 },
 
 _ => {
@@ -32681,7 +32681,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8076978189295213982u64)
+try_sub!(x, 16u64, 15293691521783146694u64)
 },
 
 _ => {
@@ -32945,7 +32945,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11570281271401624317u64));
+return Err(ParseError::ExcludedBranch(15433822888775103886u64));
 }
 };
 _input.close_peek_context()?;
@@ -32958,7 +32958,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14687724984806605719u64));
+return Err(ParseError::ExcludedBranch(8403192837054512577u64));
 }
 };
 accum.push(next_elem)
@@ -32973,7 +32973,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1378805635639824117u64));
+return Err(ParseError::ExcludedBranch(17073037115051226650u64));
 }
 };
 chars.clone()
@@ -33097,8 +33097,8 @@ accum
 mpeg4_iref_data_single_item_reference::large(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(3975307768385535064u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -33182,8 +33182,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 }
 };
 let extent_count = {
@@ -33224,7 +33224,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8407356061009412694u64)
+try_sub!(x, 16u64, 12017601628070515145u64)
 },
 
 _ => {
@@ -33316,7 +33316,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 13752480002470540422u64)
+try_sub!(x, 16u64, 10708294527730390829u64)
 },
 
 _ => {
@@ -33425,8 +33425,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(7432469293302627017u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33447,8 +33447,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 }
 };
 let extent_length = match length_size {
@@ -33469,8 +33469,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(9159119361499271180u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33493,7 +33493,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5534609128357633386u64)
+try_sub!(x, 16u64, 3490919313637905107u64)
 },
 
 _ => {
@@ -33548,7 +33548,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 16679512278832019969u64)
 },
 
 _ => {
@@ -33603,7 +33603,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3344648651879382526u64)
+try_sub!(x, 16u64, 9892894478446917378u64)
 },
 
 _ => {
@@ -33704,7 +33704,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8599210436172030522u64));
+return Err(ParseError::ExcludedBranch(3585635225240718191u64));
 }
 };
 _input.close_peek_context()?;
@@ -33717,7 +33717,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3484767027554133518u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 }
 };
 accum.push(next_elem)
@@ -33732,7 +33732,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15403934492100194569u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 }
 };
 chars.clone()
@@ -33754,7 +33754,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12041148194529633639u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 }
 };
 _input.close_peek_context()?;
@@ -33767,7 +33767,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2288772415159374970u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 };
 accum.push(next_elem)
@@ -33782,7 +33782,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17888323854924040413u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 }
 };
 chars.clone()
@@ -33804,7 +33804,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6279087434444973374u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 };
 _input.close_peek_context()?;
@@ -33817,7 +33817,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11074951631636946051u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 };
 accum.push(next_elem)
@@ -33832,7 +33832,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15601622509425384091u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 };
 chars.clone()
@@ -33878,7 +33878,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13675295148592556047u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 };
 _input.close_peek_context()?;
@@ -33891,7 +33891,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4569970360394099475u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 accum.push(next_elem)
@@ -33906,7 +33906,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9110520999974091875u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 };
 chars.clone()
@@ -33953,7 +33953,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15293691521783146694u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 };
 _input.close_peek_context()?;
@@ -33966,7 +33966,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15433822888775103886u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 accum.push(next_elem)
@@ -33981,7 +33981,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 chars.clone()
@@ -34008,7 +34008,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 _input.close_peek_context()?;
@@ -34021,7 +34021,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 accum.push(next_elem)
@@ -34036,7 +34036,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 chars.clone()
@@ -34051,7 +34051,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 let marker = {
@@ -34059,7 +34059,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34214,11 +34214,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34339,11 +34339,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34359,7 +34359,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 }
 };
@@ -34465,11 +34465,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34494,7 +34494,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 };
 let marker = {
@@ -34502,7 +34502,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34525,11 +34525,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15311158871930328757u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9892894478446917378u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34547,7 +34547,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3585635225240718191u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 })
 }
@@ -34645,11 +34645,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34762,7 +34762,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 })
 }
@@ -34828,11 +34828,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34905,7 +34905,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 })
 }
@@ -35010,11 +35010,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 };
 _input.close_peek_context()?;
 ret
@@ -35042,7 +35042,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 }
 };
 let marker = {
@@ -35050,7 +35050,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 };
 jpeg_soi { marker }
@@ -35169,11 +35169,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 };
 _input.close_peek_context()?;
 ret
@@ -35201,7 +35201,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 };
 let marker = {
@@ -35209,7 +35209,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 jpeg_soi { marker }
@@ -35372,13 +35372,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 };
 _input.close_peek_context()?;
@@ -35483,13 +35483,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 };
 _input.close_peek_context()?;
@@ -35543,7 +35543,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 })
 }
@@ -35563,7 +35563,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 _input.close_peek_context()?;
@@ -35576,7 +35576,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 },
 
@@ -35587,7 +35587,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 };
 let arg1 = {
@@ -35595,7 +35595,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 (arg0, arg1)
@@ -35604,7 +35604,7 @@ return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 })
 }
@@ -35616,7 +35616,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 };
 let marker = {
@@ -35624,7 +35624,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35637,7 +35637,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 let marker = {
@@ -35645,7 +35645,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35658,7 +35658,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 let marker = {
@@ -35666,7 +35666,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35679,7 +35679,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 let marker = {
@@ -35687,7 +35687,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35700,7 +35700,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 let marker = {
@@ -35708,7 +35708,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35721,7 +35721,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 let marker = {
@@ -35729,7 +35729,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35742,7 +35742,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 let marker = {
@@ -35750,7 +35750,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35763,7 +35763,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 let marker = {
@@ -35771,7 +35771,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35788,7 +35788,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15014773733126201031u64));
+return Err(ParseError::FalsifiedWhere(4528919599938425798u64));
 }
 };
 let image_components = {
@@ -35808,7 +35808,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9895655502210650925u64));
+return Err(ParseError::FalsifiedWhere(12955185663715491460u64));
 }
 };
 let end_spectral_selection = {
@@ -35820,7 +35820,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3344835778759068560u64));
+return Err(ParseError::FalsifiedWhere(6221053009072016381u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35857,7 +35857,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2014773054382805425u64));
+return Err(ParseError::FalsifiedWhere(4825757476091239776u64));
 })
 }
 
@@ -35875,7 +35875,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3011460078285478248u64));
+return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -36029,13 +36029,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4614223265245060097u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 };
 _input.close_peek_context()?;
@@ -36099,7 +36099,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2858990937242709991u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 let marker = {
@@ -36107,7 +36107,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13162270726566423196u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 jpeg_soi { marker }
@@ -36134,7 +36134,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 };
 let marker = {
@@ -36142,7 +36142,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 };
 jpeg_soi { marker }
@@ -36169,7 +36169,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 };
 let marker = {
@@ -36177,7 +36177,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 jpeg_soi { marker }
@@ -36204,7 +36204,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 let marker = {
@@ -36212,7 +36212,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 jpeg_soi { marker }
@@ -36239,7 +36239,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 let marker = {
@@ -36247,7 +36247,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 jpeg_soi { marker }
@@ -36274,7 +36274,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 let marker = {
@@ -36282,7 +36282,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 jpeg_soi { marker }
@@ -36309,7 +36309,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 let marker = {
@@ -36317,7 +36317,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 jpeg_soi { marker }
@@ -36344,7 +36344,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 let marker = {
@@ -36352,7 +36352,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 jpeg_soi { marker }
@@ -36379,7 +36379,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 let marker = {
@@ -36387,7 +36387,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 jpeg_soi { marker }
@@ -36414,7 +36414,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 let marker = {
@@ -36422,7 +36422,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 jpeg_soi { marker }
@@ -36449,7 +36449,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 let marker = {
@@ -36457,7 +36457,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 jpeg_soi { marker }
@@ -36484,7 +36484,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 let marker = {
@@ -36492,7 +36492,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 jpeg_soi { marker }
@@ -36519,7 +36519,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 let marker = {
@@ -36527,7 +36527,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 jpeg_soi { marker }
@@ -36557,7 +36557,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6221053009072016381u64));
+return Err(ParseError::FalsifiedWhere(2651182070283403637u64));
 }
 };
 let num_lines = {
@@ -36576,7 +36576,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4825757476091239776u64));
+return Err(ParseError::FalsifiedWhere(8284996377131534070u64));
 }
 };
 let num_image_components = {
@@ -36588,7 +36588,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
+return Err(ParseError::FalsifiedWhere(16948595091237008543u64));
 }
 };
 let image_components = {
@@ -36620,7 +36620,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12525311251009778949u64));
+return Err(ParseError::FalsifiedWhere(108256050843388088u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36634,7 +36634,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14962551735998681614u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 let marker = {
@@ -36642,7 +36642,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2007599397777734421u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 jpeg_soi { marker }
@@ -36697,7 +36697,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18069850277258932991u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 let marker = {
@@ -36705,7 +36705,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(180881308211696508u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 jpeg_soi { marker }
@@ -36732,7 +36732,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 let marker = {
@@ -36740,7 +36740,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 jpeg_soi { marker }
@@ -36767,7 +36767,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 let marker = {
@@ -36775,7 +36775,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 jpeg_soi { marker }
@@ -36802,7 +36802,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 let marker = {
@@ -36810,7 +36810,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 jpeg_soi { marker }
@@ -36837,7 +36837,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 let marker = {
@@ -36845,7 +36845,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 jpeg_soi { marker }
@@ -36872,7 +36872,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 let marker = {
@@ -36880,7 +36880,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 jpeg_soi { marker }
@@ -36931,7 +36931,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 let marker = {
@@ -36939,7 +36939,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 jpeg_soi { marker }
@@ -36990,7 +36990,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 let marker = {
@@ -36998,7 +36998,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 jpeg_soi { marker }
@@ -37049,7 +37049,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 let marker = {
@@ -37057,7 +37057,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 jpeg_soi { marker }
@@ -37108,7 +37108,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 let marker = {
@@ -37116,7 +37116,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 jpeg_soi { marker }
@@ -37167,7 +37167,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 let marker = {
@@ -37175,7 +37175,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 jpeg_soi { marker }
@@ -37226,7 +37226,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 let marker = {
@@ -37234,7 +37234,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 jpeg_soi { marker }
@@ -37285,7 +37285,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 let marker = {
@@ -37293,7 +37293,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 jpeg_soi { marker }
@@ -37344,7 +37344,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 let marker = {
@@ -37352,7 +37352,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 jpeg_soi { marker }
@@ -37403,7 +37403,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 let marker = {
@@ -37411,7 +37411,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 jpeg_soi { marker }
@@ -37462,7 +37462,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 let marker = {
@@ -37470,7 +37470,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 jpeg_soi { marker }
@@ -37521,7 +37521,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 let marker = {
@@ -37529,7 +37529,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 jpeg_soi { marker }
@@ -37580,7 +37580,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 let marker = {
@@ -37588,7 +37588,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 jpeg_soi { marker }
@@ -37639,7 +37639,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 let marker = {
@@ -37647,7 +37647,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 jpeg_soi { marker }
@@ -37698,7 +37698,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 let marker = {
@@ -37706,7 +37706,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 jpeg_soi { marker }
@@ -37768,7 +37768,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 _input.close_peek_context()?;
@@ -37781,7 +37781,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 accum.push(next_elem)
@@ -37796,7 +37796,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 chars.clone()
@@ -37856,7 +37856,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37912,7 +37912,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 _input.close_peek_context()?;
@@ -37925,7 +37925,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 accum.push(next_elem)
@@ -37940,7 +37940,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 chars.clone()
@@ -38001,7 +38001,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1016564408906296566u64));
+return Err(ParseError::FalsifiedWhere(12431089125438936538u64));
 }
 };
 let density_x = {
@@ -38016,7 +38016,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1591903561633999639u64));
+return Err(ParseError::FalsifiedWhere(9066809807580136020u64));
 }
 };
 let density_y = {
@@ -38031,7 +38031,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9590821821210520154u64));
+return Err(ParseError::FalsifiedWhere(12347909352078849049u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -38093,7 +38093,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6175893723851407495u64));
+return Err(ParseError::FalsifiedWhere(10900015085754267678u64));
 })
 }
 
@@ -38148,7 +38148,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4491050975676636472u64));
+return Err(ParseError::FalsifiedWhere(5999000939515818447u64));
 })
 }
 
@@ -38182,8 +38182,8 @@ accum
 jpeg_dqt_data_elements::Shorts(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 })
 }
@@ -38206,7 +38206,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 }
 };
 _input.close_peek_context()?;
@@ -38219,7 +38219,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10865781264025109219u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 };
 accum.push(next_elem)
@@ -38234,7 +38234,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1125515999835788388u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38259,7 +38259,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6928743980636918648u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 _input.close_peek_context()?;
@@ -38272,7 +38272,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 accum.push(next_elem)
@@ -38287,7 +38287,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 chars.clone()
@@ -38378,7 +38378,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 _input.close_peek_context()?;
@@ -38406,7 +38406,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 accum.push(next_elem)
@@ -38439,7 +38439,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 accum.push(next_elem)
@@ -38470,7 +38470,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 _input.close_peek_context()?;
@@ -38483,7 +38483,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 accum.push(next_elem)
@@ -38498,7 +38498,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38523,7 +38523,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 _input.close_peek_context()?;
@@ -38536,7 +38536,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 accum.push(next_elem)
@@ -38551,7 +38551,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 chars.clone()
@@ -38567,7 +38567,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 let arg1 = {
@@ -38575,7 +38575,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 let arg2 = {
@@ -38583,7 +38583,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38633,7 +38633,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 }
 },
@@ -38643,7 +38643,7 @@ return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 _input.close_peek_context()?;
@@ -38662,7 +38662,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 })
 }
@@ -38674,7 +38674,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38698,7 +38698,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 }
 },
@@ -38708,7 +38708,7 @@ return Err(ParseError::ExcludedBranch(389354767835086292u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 _input.close_peek_context()?;
@@ -38725,7 +38725,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 }
 };
@@ -38750,11 +38750,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38772,7 +38772,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 })
 }
@@ -38784,7 +38784,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 };
 let label = {
@@ -38792,7 +38792,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 };
 let block_size = {
@@ -38800,7 +38800,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 };
 let identifier = {
@@ -38828,7 +38828,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 };
 _input.close_peek_context()?;
@@ -38855,7 +38855,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 };
 let label = {
@@ -38863,7 +38863,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 let comment_data = {
@@ -38882,7 +38882,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 };
 _input.close_peek_context()?;
@@ -38909,7 +38909,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 let data = {
@@ -38929,7 +38929,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 })
 }
 
@@ -38940,7 +38940,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 };
 let label = {
@@ -38948,7 +38948,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 let block_size = {
@@ -38956,7 +38956,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38984,7 +38984,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 _input.close_peek_context()?;
@@ -39003,7 +39003,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 })
 }
@@ -39032,7 +39032,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 };
 let label = {
@@ -39040,7 +39040,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 let block_size = {
@@ -39048,7 +39048,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 };
 let text_grid_left_position = {
@@ -39087,7 +39087,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 };
 _input.close_peek_context()?;
@@ -39114,7 +39114,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 let image_left_position = {
@@ -39164,7 +39164,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 };
 _input.close_peek_context()?;
@@ -39296,55 +39296,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(16815582401460622228u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(6170312119912404925u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(10784354724006973021u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(7814984350356971595u64));
 }
 };
 _input.close_peek_context()?;
@@ -39359,7 +39359,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(8834940284440365505u64));
 }
 };
 accum.push(next_elem)
@@ -39373,7 +39373,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 }
 };
 (arg0, arg1)
@@ -39401,7 +39401,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39434,7 +39434,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7180361712816552798u64));
+return Err(ParseError::FalsifiedWhere(14970223179097094798u64));
 }
 };
 let num_image_components = {
@@ -39446,7 +39446,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2157749958308397018u64));
+return Err(ParseError::FalsifiedWhere(15666641356442195125u64));
 }
 };
 let image_components = {
@@ -39469,7 +39469,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(8003682420837492218u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39491,7 +39491,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3289883751054141021u64));
+return Err(ParseError::FalsifiedWhere(6672851768458061412u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39505,7 +39505,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(5694490278249537684u64));
 }
 };
 let marker = {
@@ -39513,7 +39513,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(17498679062468273557u64));
 }
 };
 jpeg_soi { marker }
@@ -39564,7 +39564,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(15004954221525838533u64));
 }
 };
 let marker = {
@@ -39572,7 +39572,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8635718010611311692u64));
+return Err(ParseError::ExcludedBranch(9104412661124805519u64));
 }
 };
 jpeg_soi { marker }
@@ -39610,7 +39610,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16026689348257499085u64));
+return Err(ParseError::FalsifiedWhere(13731807471966330507u64));
 }
 };
 let num_image_components = {
@@ -39622,7 +39622,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(783530747334100044u64));
+return Err(ParseError::FalsifiedWhere(13391927636850586680u64));
 }
 };
 let image_components = {
@@ -39644,7 +39644,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(5585407796242218698u64));
 }
 };
 let marker = {
@@ -39652,7 +39652,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(7581188615734068888u64));
 }
 };
 jpeg_soi { marker }
@@ -39687,7 +39687,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15243788729772203041u64));
+return Err(ParseError::FalsifiedWhere(401211890982280023u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 117672e..a651f17 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3435,8 +3435,11 @@ where
                     Refutability::Refutable | Refutability::Indeterminate => {
                         RustMatchBody::Refutable(
                             branches,
-                            RustCatchAll::PanicUnreachable {
-                                message: Label::from("ExprMatch refuted: "),
+                            RustCatchAll::ReturnErrorValue {
+                                value: Box::new(model::err_fallthrough(get_trace(&(
+                                    "expr-match",
+                                    "refuted",
+                                )))),
                             },
                         )
                     }
diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index 6f9022d..099e95a 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -3522,6 +3522,7 @@ impl RustStmt {
 
 #[derive(Clone, Debug)]
 pub(crate) enum RustCatchAll {
+    #[allow(dead_code)]
     PanicUnreachable { message: Label },
     ReturnErrorValue { value: Box<RustExpr> },
 }
-- 
2.43.0


From e90f88043bbb8ba47bf09f4bbadeca1f4de26008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:39 +0000
Subject: [PATCH 31/46] fix: waldo.main refuses a pointer to before itself
 instead of underflowing

---
 doodle-formats/src/format/waldo.rs |    6 +-
 generated/gencode.rs               | 1353 ++++++++++++++--------------
 2 files changed, 687 insertions(+), 672 deletions(-)

diff --git a/doodle-formats/src/format/waldo.rs b/doodle-formats/src/format/waldo.rs
index bcdbd09..d062130 100644
--- a/doodle-formats/src/format/waldo.rs
+++ b/doodle-formats/src/format/waldo.rs
@@ -8,7 +8,11 @@ pub fn main(module: &mut FormatModule) -> FormatRef {
             ("where", u64be()),
             ("noise", repeat(is_byte(0xFF))),
             ("__sep", is_byte(0x00)),
-            ("_here", Format::Pos),
+            (
+                // `where` must not point back before this position
+                "_here",
+                where_lambda(Format::Pos, "here", expr_lte(var("here"), var("where"))),
+            ),
             (
                 "waldo",
                 Format::LetView(
diff --git a/generated/gencode.rs b/generated/gencode.rs
index 91305ac..b832694 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8889,7 +8889,18 @@ b
 return Err(ParseError::ExcludedBranch(5712308626808297759u64));
 }
 };
-let _here = _input.get_offset_u64();
+let _here = {
+let inner = _input.get_offset_u64();
+let is_valid = {
+let here = inner;
+here <= r#where
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(8638089167112501923u64));
+}
+};
 let waldo = {
 let scope = _input.view();
 scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)?
@@ -8964,7 +8975,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8638089167112501923u64));
+return Err(ParseError::ExcludedBranch(1453530207670075215u64));
 }
 };
 _input.close_peek_context()?;
@@ -9110,7 +9121,7 @@ let b = _input.read_byte()?;
 if b == 137 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1453530207670075215u64));
+return Err(ParseError::ExcludedBranch(15915510438164744429u64));
 }
 };
 let ix1 = {
@@ -9118,7 +9129,7 @@ let b = _input.read_byte()?;
 if b == 80 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15915510438164744429u64));
+return Err(ParseError::ExcludedBranch(1542992798780655146u64));
 }
 };
 let ix2 = {
@@ -9126,7 +9137,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1542992798780655146u64));
+return Err(ParseError::ExcludedBranch(7028560493922100069u64));
 }
 };
 let ix3 = {
@@ -9134,7 +9145,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7028560493922100069u64));
+return Err(ParseError::ExcludedBranch(2649783168072194737u64));
 }
 };
 let ix4 = {
@@ -9142,7 +9153,7 @@ let b = _input.read_byte()?;
 if b == 13 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2649783168072194737u64));
+return Err(ParseError::ExcludedBranch(8253205784254894771u64));
 }
 };
 let ix5 = {
@@ -9150,7 +9161,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8253205784254894771u64));
+return Err(ParseError::ExcludedBranch(1225514472166157741u64));
 }
 };
 let ix6 = {
@@ -9158,7 +9169,7 @@ let b = _input.read_byte()?;
 if b == 26 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1225514472166157741u64));
+return Err(ParseError::ExcludedBranch(1224415506115142500u64));
 }
 };
 let ix7 = {
@@ -9166,7 +9177,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1224415506115142500u64));
+return Err(ParseError::ExcludedBranch(16859485491091215361u64));
 }
 };
 vec![ix0, ix1, ix2, ix3, ix4, ix5, ix6, ix7]
@@ -9198,7 +9209,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16859485491091215361u64));
+return Err(ParseError::ExcludedBranch(14898840355839773829u64));
 }
 }
 },
@@ -9208,7 +9219,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14898840355839773829u64));
+return Err(ParseError::ExcludedBranch(9453951600195794313u64));
 }
 }
 },
@@ -9222,7 +9233,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9453951600195794313u64));
+return Err(ParseError::ExcludedBranch(10036157788440812915u64));
 }
 }
 },
@@ -9232,7 +9243,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10036157788440812915u64));
+return Err(ParseError::ExcludedBranch(6349531732377484771u64));
 }
 };
 _input.close_peek_context()?;
@@ -9280,7 +9291,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6349531732377484771u64));
+return Err(ParseError::ExcludedBranch(13785646910930464515u64));
 }
 }
 },
@@ -9290,7 +9301,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13785646910930464515u64));
+return Err(ParseError::ExcludedBranch(5323644471994966730u64));
 }
 }
 },
@@ -9300,7 +9311,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5323644471994966730u64));
+return Err(ParseError::ExcludedBranch(13278122992382147879u64));
 }
 }
 },
@@ -9310,7 +9321,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13278122992382147879u64));
+return Err(ParseError::ExcludedBranch(18159646757349796721u64));
 }
 };
 _input.close_peek_context()?;
@@ -9367,7 +9378,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706606u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18159646757349796721u64));
+return Err(ParseError::ExcludedBranch(7124606020426797957u64));
 }
 }
 },
@@ -9377,7 +9388,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847690238u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7124606020426797957u64));
+return Err(ParseError::ExcludedBranch(15116592996336247086u64));
 }
 }
 },
@@ -9387,7 +9398,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15116592996336247086u64));
+return Err(ParseError::ExcludedBranch(10346499338674982396u64));
 }
 }
 },
@@ -9397,7 +9408,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10346499338674982396u64));
+return Err(ParseError::ExcludedBranch(10951432197815892834u64));
 }
 };
 _input.close_peek_context()?;
@@ -9425,7 +9436,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10951432197815892834u64));
+return Err(ParseError::ExcludedBranch(14864597187136898256u64));
 }
 };
 let arg1 = {
@@ -9433,7 +9444,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14864597187136898256u64));
+return Err(ParseError::ExcludedBranch(15238960955167157760u64));
 }
 };
 let arg2 = {
@@ -9441,7 +9452,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15238960955167157760u64));
+return Err(ParseError::ExcludedBranch(17527274083228188873u64));
 }
 };
 let arg3 = {
@@ -9449,7 +9460,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17527274083228188873u64));
+return Err(ParseError::ExcludedBranch(17855530393917176367u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9470,7 +9481,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17855530393917176367u64));
+return Err(ParseError::ExcludedBranch(11054356281452530428u64));
 })
 } else {
 None
@@ -9532,7 +9543,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11054356281452530428u64));
+return Err(ParseError::ExcludedBranch(17406968167054271466u64));
 }
 };
 _input.close_peek_context()?;
@@ -9560,7 +9571,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17406968167054271466u64));
+return Err(ParseError::ExcludedBranch(11100042044514704042u64));
 }
 };
 accum.push(next_elem)
@@ -9593,7 +9604,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11100042044514704042u64));
+return Err(ParseError::ExcludedBranch(5409189036752851054u64));
 }
 };
 accum.push(next_elem)
@@ -9720,7 +9731,7 @@ opentype_main_directory::TableDirectory(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(5409189036752851054u64));
+return Err(ParseError::FailToken(4726315105662630465u64));
 }
 };
 PResult::Ok(opentype_main { magic, directory })
@@ -9734,7 +9745,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4726315105662630465u64));
+return Err(ParseError::ExcludedBranch(10036638040555853769u64));
 }
 };
 let arg1 = {
@@ -9742,7 +9753,7 @@ let b = _input.read_byte()?;
 if b == 85 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10036638040555853769u64));
+return Err(ParseError::ExcludedBranch(13230337088401352826u64));
 }
 };
 let arg2 = {
@@ -9750,7 +9761,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13230337088401352826u64));
+return Err(ParseError::ExcludedBranch(11460567998186064482u64));
 }
 };
 let arg3 = {
@@ -9758,7 +9769,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11460567998186064482u64));
+return Err(ParseError::ExcludedBranch(6223008304848233301u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9841,7 +9852,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10197098993763395417u64));
+return Err(ParseError::ExcludedBranch(15631554783732883240u64));
 }
 };
 _input.close_peek_context()?;
@@ -9855,7 +9866,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6223008304848233301u64));
+return Err(ParseError::ExcludedBranch(14550754927305275517u64));
 }
 };
 let inner = (Decoder_rle_old_style(_input))?;
@@ -9868,7 +9879,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14550754927305275517u64));
+return Err(ParseError::ExcludedBranch(10197098993763395417u64));
 }
 };
 let inner = (Decoder_rle_new_style(_input))?;
@@ -9876,7 +9887,7 @@ rle_main::new_style(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15631554783732883240u64));
+return Err(ParseError::ExcludedBranch(2391834656526534993u64));
 }
 })
 }
@@ -10003,7 +10014,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9422510723961972169u64));
+return Err(ParseError::ExcludedBranch(10940017698627680568u64));
 }
 };
 _input.close_peek_context()?;
@@ -10017,7 +10028,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2391834656526534993u64));
+return Err(ParseError::ExcludedBranch(9422510723961972169u64));
 }
 };
 (char::from_u32(0u32)).unwrap()
@@ -10028,7 +10039,7 @@ return Err(ParseError::ExcludedBranch(2391834656526534993u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10940017698627680568u64));
+return Err(ParseError::ExcludedBranch(179268011689651936u64));
 }
 })
 }
@@ -10077,7 +10088,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9220862562374507822u64));
+return Err(ParseError::ExcludedBranch(8772793160380380086u64));
 }
 };
 _input.close_peek_context()?;
@@ -10091,7 +10102,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(179268011689651936u64));
+return Err(ParseError::ExcludedBranch(9665974566873665536u64));
 }
 };
 byte as u32
@@ -10105,7 +10116,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 4294967292u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9665974566873665536u64));
+return Err(ParseError::ExcludedBranch(374064178837027275u64));
 }
 };
 raw & 31u8
@@ -10142,7 +10153,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8376883036401934317u64));
+return Err(ParseError::ExcludedBranch(9069368457806005425u64));
 }
 };
 _input.close_peek_context()?;
@@ -10157,7 +10168,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(374064178837027275u64));
+return Err(ParseError::ExcludedBranch(658824046370133753u64));
 }
 };
 raw & 15u8
@@ -10168,7 +10179,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744069414584320u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(658824046370133753u64));
+return Err(ParseError::ExcludedBranch(3725673472712527969u64));
 }
 };
 raw & 63u8
@@ -10184,7 +10195,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 35175782154240u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3725673472712527969u64));
+return Err(ParseError::ExcludedBranch(12728843535195535635u64));
 }
 };
 raw & 15u8
@@ -10201,7 +10212,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12728843535195535635u64));
+return Err(ParseError::ExcludedBranch(15741082764016749161u64));
 }
 };
 raw & 15u8
@@ -10212,7 +10223,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 4294967295u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15741082764016749161u64));
+return Err(ParseError::ExcludedBranch(9967703502401950260u64));
 }
 };
 raw & 63u8
@@ -10228,7 +10239,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9967703502401950260u64));
+return Err(ParseError::ExcludedBranch(8376883036401934317u64));
 }
 };
 raw & 15u8
@@ -10239,7 +10250,7 @@ let arg2 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9069368457806005425u64));
+return Err(ParseError::ExcludedBranch(3179861450314844647u64));
 }
 }
 };
@@ -10268,7 +10279,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3852079030227774582u64));
+return Err(ParseError::ExcludedBranch(5176232487486782188u64));
 }
 };
 _input.close_peek_context()?;
@@ -10283,7 +10294,7 @@ let b = _input.read_byte()?;
 if b == 240 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3179861450314844647u64));
+return Err(ParseError::ExcludedBranch(15080388466336998873u64));
 }
 };
 raw & 7u8
@@ -10294,7 +10305,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709486080u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15080388466336998873u64));
+return Err(ParseError::ExcludedBranch(6070260202873699214u64));
 }
 };
 raw & 63u8
@@ -10311,7 +10322,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6070260202873699214u64));
+return Err(ParseError::ExcludedBranch(8986322043713516692u64));
 }
 };
 raw & 7u8
@@ -10329,7 +10340,7 @@ let b = _input.read_byte()?;
 if b == 244 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8986322043713516692u64));
+return Err(ParseError::ExcludedBranch(11786939113783016634u64));
 }
 };
 raw & 7u8
@@ -10340,7 +10351,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 65535u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11786939113783016634u64));
+return Err(ParseError::ExcludedBranch(3852079030227774582u64));
 }
 };
 raw & 63u8
@@ -10351,7 +10362,7 @@ let arg3 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5176232487486782188u64));
+return Err(ParseError::ExcludedBranch(9220862562374507822u64));
 }
 }
 };
@@ -10362,7 +10373,7 @@ let (x3, x2, x1, x0) = tuple_var;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8772793160380380086u64));
+return Err(ParseError::ExcludedBranch(2605623462625042002u64));
 }
 }
 };
@@ -10376,7 +10387,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2605623462625042002u64));
+return Err(ParseError::ExcludedBranch(18164850183020044607u64));
 }
 };
 PResult::Ok(raw & 63u8)
@@ -10513,7 +10524,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(386759067598651566u64));
+return Err(ParseError::ExcludedBranch(13527164188224560282u64));
 }
 };
 _input.close_peek_context()?;
@@ -10528,7 +10539,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18164850183020044607u64));
+return Err(ParseError::ExcludedBranch(10688770705819276010u64));
 }
 };
 _input.read_byte()?
@@ -10543,7 +10554,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10688770705819276010u64));
+return Err(ParseError::ExcludedBranch(10416240583538343445u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -10559,7 +10570,7 @@ let b = _input.read_byte()?;
 if b == 2 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10416240583538343445u64));
+return Err(ParseError::ExcludedBranch(1457499133218925748u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10575,7 +10586,7 @@ let b = _input.read_byte()?;
 if b == 3 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1457499133218925748u64));
+return Err(ParseError::ExcludedBranch(14215639860155940137u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10591,7 +10602,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14215639860155940137u64));
+return Err(ParseError::ExcludedBranch(5584166819955891466u64));
 }
 };
 let raw = _input.read_byte()?;
@@ -10607,7 +10618,7 @@ let b = _input.read_byte()?;
 if b == 5 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5584166819955891466u64));
+return Err(ParseError::ExcludedBranch(11133239979815295357u64));
 }
 };
 let raw = {
@@ -10626,7 +10637,7 @@ let b = _input.read_byte()?;
 if b == 6 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11133239979815295357u64));
+return Err(ParseError::ExcludedBranch(1275286460638129217u64));
 }
 };
 let raw = {
@@ -10645,7 +10656,7 @@ let b = _input.read_byte()?;
 if b == 7 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1275286460638129217u64));
+return Err(ParseError::ExcludedBranch(386759067598651566u64));
 }
 };
 let raw = {
@@ -10658,7 +10669,7 @@ numbers_num_value::I64BEValue(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13527164188224560282u64));
+return Err(ParseError::ExcludedBranch(240888096670347429u64));
 }
 })
 }
@@ -10677,7 +10688,7 @@ matches!(version, 65536u32 | 1330926671u32 | 1953658213u32)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(240888096670347429u64));
+return Err(ParseError::FalsifiedWhere(11936787736236307191u64));
 }
 };
 let num_tables = {
@@ -10722,7 +10733,7 @@ tag == 1953784678u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11936787736236307191u64));
+return Err(ParseError::FalsifiedWhere(5215619712890029856u64));
 }
 };
 let major_version = {
@@ -10851,7 +10862,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5215619712890029856u64));
+return Err(ParseError::ExcludedBranch(3167775832820164678u64));
 }
 };
 let head = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751474532u32, tables)).copied() {
@@ -10866,7 +10877,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3167775832820164678u64));
+return Err(ParseError::ExcludedBranch(7215050775822222282u64));
 }
 };
 let hhea = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751672161u32, tables)).copied() {
@@ -10881,7 +10892,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7215050775822222282u64));
+return Err(ParseError::ExcludedBranch(3743786174148899814u64));
 }
 };
 let maxp = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1835104368u32, tables)).copied() {
@@ -10896,7 +10907,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3743786174148899814u64));
+return Err(ParseError::ExcludedBranch(12652804269632162478u64));
 }
 };
 let hmtx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1752003704u32, tables)).copied() {
@@ -10911,7 +10922,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12652804269632162478u64));
+return Err(ParseError::ExcludedBranch(18134882366868794706u64));
 }
 };
 let name = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1851878757u32, tables)).copied() {
@@ -10926,7 +10937,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18134882366868794706u64));
+return Err(ParseError::ExcludedBranch(7155653122005708978u64));
 }
 };
 let os2 = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1330851634u32, tables)).copied() {
@@ -10942,7 +10953,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7155653122005708978u64));
+return Err(ParseError::ExcludedBranch(17920584887603040596u64));
 }
 };
 let post = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1886352244u32, tables)).copied() {
@@ -10957,7 +10968,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17920584887603040596u64));
+return Err(ParseError::ExcludedBranch(5673845796627816005u64));
 }
 };
 let cvt = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1668707360u32, tables)).copied() {
@@ -11343,7 +11354,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5673845796627816005u64));
+return Err(ParseError::ExcludedBranch(14591018267292443527u64));
 }
 }.number_of_long_metrics, maxp.num_glyphs))?;
 view_input.end_slice()?;
@@ -11455,7 +11466,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14591018267292443527u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4762692522317026931u64));
 inner
 }
 };
@@ -11471,7 +11482,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4762692522317026931u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9630069758457681762u64));
 inner
 }
 };
@@ -11492,7 +11503,7 @@ let b = _input.read_byte()?;
 if b == 95 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9630069758457681762u64));
+return Err(ParseError::ExcludedBranch(908377722732597655u64));
 }
 };
 let arg1 = {
@@ -11500,7 +11511,7 @@ let b = _input.read_byte()?;
 if b == 15 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(908377722732597655u64));
+return Err(ParseError::ExcludedBranch(3203034260088513018u64));
 }
 };
 let arg2 = {
@@ -11508,7 +11519,7 @@ let b = _input.read_byte()?;
 if b == 60 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3203034260088513018u64));
+return Err(ParseError::ExcludedBranch(14677505873656710393u64));
 }
 };
 let arg3 = {
@@ -11516,7 +11527,7 @@ let b = _input.read_byte()?;
 if b == 245 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14677505873656710393u64));
+return Err(ParseError::ExcludedBranch(10102114574336663273u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -11537,7 +11548,7 @@ matches!(x, 16u16..=16384u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10102114574336663273u64));
+return Err(ParseError::FalsifiedWhere(4386762582485017400u64));
 }
 };
 let created = (Decoder222(_input))?;
@@ -11652,7 +11663,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4386762582485017400u64));
+return Err(ParseError::FalsifiedWhere(8893850231119365992u64));
 }
 };
 let glyph_data_format = {
@@ -11667,7 +11678,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7659860344311718435u64));
 inner
 }
 };
@@ -11688,7 +11699,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7659860344311718435u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
 inner
 }
 };
@@ -11704,7 +11715,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
 inner
 }
 };
@@ -11791,7 +11802,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
 inner
 }
 };
@@ -11807,7 +11818,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
 inner
 }
 };
@@ -11823,7 +11834,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
 inner
 }
 };
@@ -11839,7 +11850,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
 inner
 }
 };
@@ -11857,7 +11868,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
 inner
 }
 };
@@ -12336,7 +12347,7 @@ opentype_loca_table_offsets::Offsets32(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11328034188734904930u64));
+return Err(ParseError::ExcludedBranch(1338347005175300217u64));
 }
 };
 PResult::Ok(opentype_loca_table { offsets })
@@ -12439,7 +12450,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
 inner
 }
 };
@@ -12455,7 +12466,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15432825464810477099u64));
+return Err(ParseError::FalsifiedWhere(8987822076696059625u64));
 }
 };
 let horiz_axis_offset = {
@@ -12503,7 +12514,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8987822076696059625u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
 inner
 }
 };
@@ -12549,7 +12560,7 @@ opentype_gdef_table_data::Version1_0
 },
 
 1u16 => {
-return Err(ParseError::FailToken(10078755145706786000u64));
+return Err(ParseError::FailToken(1977899765720151190u64));
 },
 
 2u16 => {
@@ -12632,7 +12643,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
 inner
 }
 };
@@ -12693,7 +12704,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
 inner
 }
 };
@@ -12752,7 +12763,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
 inner
 }
 };
@@ -12768,7 +12779,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
 inner
 }
 };
@@ -12784,7 +12795,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
 inner
 }
 };
@@ -12819,7 +12830,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
 inner
 }
 };
@@ -12835,7 +12846,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
 inner
 }
 };
@@ -12851,7 +12862,7 @@ raw > 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14009314771729697611u64));
+return Err(ParseError::FalsifiedWhere(10973085168168570837u64));
 }
 };
 {
@@ -12866,7 +12877,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
 inner
 }
 };
@@ -12886,7 +12897,7 @@ x == 20u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
 inner
 }
 };
@@ -12921,7 +12932,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
 inner
 }
 };
@@ -12937,7 +12948,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
 inner
 }
 };
@@ -13024,7 +13035,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
 inner
 }
 };
@@ -13040,7 +13051,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
 inner
 }
 };
@@ -13095,7 +13106,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
 inner
 }
 };
@@ -13111,7 +13122,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
 inner
 }
 };
@@ -13127,7 +13138,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
 inner
 }
 };
@@ -13143,7 +13154,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
 inner
 }
 };
@@ -13186,7 +13197,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
 inner
 }
 };
@@ -13210,7 +13221,7 @@ actual == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7511456693437940214u64));
+return Err(ParseError::FalsifiedWhere(973408085875818710u64));
 }
 };
 PResult::Ok(opentype_svg_table { table_scope, version, svg_document_list })
@@ -13230,7 +13241,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
 inner
 }
 };
@@ -13265,7 +13276,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
 inner
 }
 };
@@ -13281,7 +13292,7 @@ matches!(x, 1u16 | 2u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
 inner
 }
 };
@@ -13334,7 +13345,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
 inner
 }
 };
@@ -13350,7 +13361,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
 inner
 }
 };
@@ -13437,7 +13448,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
 inner
 }
 };
@@ -13453,7 +13464,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
 inner
 }
 };
@@ -13469,7 +13480,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
 inner
 }
 };
@@ -13485,7 +13496,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
 inner
 }
 };
@@ -13503,7 +13514,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
 inner
 }
 };
@@ -13570,7 +13581,7 @@ matches!(x, 1)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
 inner
 }
 };
@@ -13611,7 +13622,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
 inner
 }
 };
@@ -13631,7 +13642,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14454034443522724586u64));
+return Err(ParseError::FalsifiedWhere(5322124757500927073u64));
 }
 };
 let records = {
@@ -13667,7 +13678,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5322124757500927073u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
 inner
 }
 };
@@ -13687,7 +13698,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17869550927478639832u64));
+return Err(ParseError::FalsifiedWhere(13431462572241034712u64));
 }
 };
 let ratio_range = {
@@ -13811,7 +13822,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
 inner
 }
 };
@@ -13827,7 +13838,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13516986665125759073u64));
 inner
 }
 };
@@ -13902,7 +13913,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13516986665125759073u64));
+return Err(ParseError::FalsifiedWhere(14751251992141172493u64));
 }
 };
 let data = match format {
@@ -14066,7 +14077,7 @@ opentype_stat_axis_value_table_data::Format4(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14751251992141172493u64));
+return Err(ParseError::ExcludedBranch(5733880678136728614u64));
 }
 };
 PResult::Ok(opentype_stat_axis_value_table { format, data })
@@ -14092,7 +14103,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8997881400116719018u64));
 inner
 }
 };
@@ -14124,7 +14135,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8997881400116719018u64));
+return Err(ParseError::FailToken(13614619987783239962u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14278,7 +14289,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13614619987783239962u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
 inner
 }
 };
@@ -14315,7 +14326,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6949960292533894002u64));
 inner
 }
 };
@@ -14525,7 +14536,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6949960292533894002u64));
+return Err(ParseError::ExcludedBranch(1347174710810305478u64));
 }
 };
 let ix1 = {
@@ -14533,7 +14544,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1347174710810305478u64));
+return Err(ParseError::ExcludedBranch(8958899994948144829u64));
 }
 };
 vec![ix0, ix1]
@@ -14607,7 +14618,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8958899994948144829u64));
+return Err(ParseError::ExcludedBranch(15803403730818557393u64));
 }
 };
 _input.close_peek_context()?;
@@ -14620,7 +14631,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15803403730818557393u64));
+return Err(ParseError::ExcludedBranch(8390724546948265409u64));
 }
 };
 accum.push(next_elem)
@@ -14635,7 +14646,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8390724546948265409u64));
+return Err(ParseError::ExcludedBranch(6347242493551283856u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14660,7 +14671,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6347242493551283856u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 };
 _input.close_peek_context()?;
@@ -14673,7 +14684,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4251627061094365437u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 accum.push(next_elem)
@@ -14688,7 +14699,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11915580511665106140u64));
+return Err(ParseError::ExcludedBranch(17324980155911269375u64));
 }
 };
 chars.clone()
@@ -14795,7 +14806,7 @@ deflate_block_data::dynamic_huffman(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17324980155911269375u64));
+return Err(ParseError::ExcludedBranch(17670535809278048255u64));
 }
 };
 PResult::Ok(deflate_block { r#final, r#type, data })
@@ -14816,12 +14827,12 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 let inner = nlen;
 let is_valid = {
 let nlen = inner;
-nlen == (try_sub!(65535u16, len, 2444204717155307095u64))
+nlen == (try_sub!(65535u16, len, 1278184758971178969u64))
 };
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1278184758971178969u64));
+return Err(ParseError::FalsifiedWhere(4480225125687487743u64));
 }
 };
 let bytes = {
@@ -15547,7 +15558,7 @@ total == ((hlit + hdist) as u32) + 258u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4480225125687487743u64));
+return Err(ParseError::FalsifiedWhere(12879845237981630531u64));
 }
 };
 let literal_length_alphabet_code_lengths_value = {
@@ -15955,7 +15966,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3426398976290336157u64));
+return Err(ParseError::ExcludedBranch(11250208753083412758u64));
 }
 }))
 },
@@ -16107,11 +16118,11 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(11250208753083412758u64));
+return Err(ParseError::FailToken(17349123374714965876u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17349123374714965876u64));
+return Err(ParseError::ExcludedBranch(2153064741293804702u64));
 }
 })
 }
@@ -16189,7 +16200,7 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2153064741293804702u64));
+return Err(ParseError::ExcludedBranch(1588651938759015246u64));
 }
 };
 let distance = start + distance_extra_bits;
@@ -16242,7 +16253,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3249387167439447765u64));
 inner
 }
 };
@@ -16308,7 +16319,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
+return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
 }
 };
 let variation_regions = {
@@ -16481,7 +16492,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8700288293163706751u64));
 inner
 }
 };
@@ -16503,7 +16514,7 @@ u32be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8700288293163706751u64));
+return Err(ParseError::ExcludedBranch(16771529512960957239u64));
 }
 };
 let map_data = {
@@ -16565,7 +16576,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16771529512960957239u64));
+return Err(ParseError::FalsifiedWhere(13846498452079501214u64));
 }
 };
 let tuple_variation_headers = {
@@ -16758,7 +16769,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18279137173405083757u64));
+return Err(ParseError::ExcludedBranch(14954891776835932150u64));
 }
 };
 _input.close_peek_context()?;
@@ -16772,7 +16783,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13846498452079501214u64));
+return Err(ParseError::ExcludedBranch(9798710097031164942u64));
 }
 };
 (0u16, [].to_vec())
@@ -16784,7 +16795,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9798710097031164942u64));
+return Err(ParseError::ExcludedBranch(9819345728844658158u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16796,7 +16807,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9819345728844658158u64));
+return Err(ParseError::ExcludedBranch(18279137173405083757u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16804,7 +16815,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14954891776835932150u64));
+return Err(ParseError::ExcludedBranch(11046436797737227751u64));
 }
 })
 }
@@ -16934,7 +16945,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11046436797737227751u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
 inner
 }
 };
@@ -17083,7 +17094,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9342187932533045817u64));
 inner
 }
 };
@@ -17099,7 +17110,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9342187932533045817u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
 inner
 }
 };
@@ -17155,7 +17166,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
 inner
 }
 };
@@ -17171,7 +17182,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6279463968646665849u64));
 inner
 }
 };
@@ -17313,7 +17324,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
 }
 };
 let table_scope = table_view;
@@ -17329,7 +17340,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(11323981950571132721u64));
 }
 };
 let extension_offset = {
@@ -17382,11 +17393,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(11323981950571132721u64));
+return Err(ParseError::FailToken(1179945139148562335u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(3270685119814653163u64));
 }
 })
 }
@@ -17410,7 +17421,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(6821845925776570829u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17457,7 +17468,7 @@ opentype_layout_multiple_subst_subst::Format1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6821845925776570829u64));
+return Err(ParseError::ExcludedBranch(15898809900392744567u64));
 }
 };
 PResult::Ok(opentype_layout_multiple_subst { table_scope, subst_format, coverage, subst })
@@ -17479,7 +17490,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
+return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
 }
 };
 let coverage = {
@@ -17528,7 +17539,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
 }
 };
 let coverage = {
@@ -17586,7 +17597,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9179996462972575343u64));
+return Err(ParseError::FailToken(3675496117133668659u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17617,7 +17628,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3675496117133668659u64));
+return Err(ParseError::FailToken(6495907546257147840u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17638,7 +17649,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
+return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
 }
 };
 let table_scope = table_view;
@@ -17769,7 +17780,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8327471529801851430u64));
+return Err(ParseError::FailToken(10310785543736156275u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -18017,7 +18028,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10310785543736156275u64));
+return Err(ParseError::FailToken(16594239496794104967u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18259,7 +18270,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
+return Err(ParseError::FalsifiedWhere(16529910322175208638u64));
 }
 };
 let seq_lookup_count = {
@@ -18497,7 +18508,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16529910322175208638u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12187643960709778443u64));
 inner
 }
 };
@@ -18646,7 +18657,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12187643960709778443u64));
+return Err(ParseError::FalsifiedWhere(8766708729375264031u64));
 }
 };
 let table_scope = table_view;
@@ -18662,7 +18673,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8766708729375264031u64));
+return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
 }
 };
 let extension_offset = {
@@ -18720,11 +18731,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(1369437808023015077u64));
+return Err(ParseError::FailToken(163858356033350300u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(163858356033350300u64));
+return Err(ParseError::FailToken(888161872995526095u64));
 }
 })
 }
@@ -18748,7 +18759,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(888161872995526095u64));
+return Err(ParseError::FailToken(4770836931378141069u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18773,7 +18784,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4770836931378141069u64));
+return Err(ParseError::FailToken(9976720501248819272u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18794,7 +18805,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
+return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
 }
 };
 let table_scope = table_view;
@@ -18836,7 +18847,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
 }
 };
 let table_scope = table_view;
@@ -18895,7 +18906,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
+return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
 }
 };
 let mark_coverage = {
@@ -18952,7 +18963,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(1386817607731947864u64));
 }
 };
 let table_scope = table_view;
@@ -19110,7 +19121,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(1386817607731947864u64));
+return Err(ParseError::FailToken(4795509455376621436u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19258,7 +19269,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4795509455376621436u64));
+return Err(ParseError::ExcludedBranch(3923207427992258326u64));
 }
 };
 let arg1 = {
@@ -19266,7 +19277,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3923207427992258326u64));
+return Err(ParseError::ExcludedBranch(5174369311102857850u64));
 }
 };
 (arg0, arg1)
@@ -20204,7 +20215,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
 inner
 }
 };
@@ -20295,7 +20306,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(15995337135637623051u64));
+return Err(ParseError::FailToken(4063460887563813446u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20544,7 +20555,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4063460887563813446u64));
+return Err(ParseError::FailToken(10243418979491025991u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20608,7 +20619,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10243418979491025991u64));
+return Err(ParseError::FailToken(6726475111737435495u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21257,7 +21268,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6726475111737435495u64));
+return Err(ParseError::FalsifiedWhere(3702191162545267776u64));
 }
 };
 let max_twilight_points = {
@@ -21300,7 +21311,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3702191162545267776u64));
+return Err(ParseError::FalsifiedWhere(14926982082392674388u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21396,7 +21407,7 @@ opentype_cmap_subtable_data::Format14(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14926982082392674388u64));
+return Err(ParseError::ExcludedBranch(13281230340934385869u64));
 }
 };
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
@@ -21419,7 +21430,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -21444,7 +21455,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -21487,7 +21498,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
 inner
 }
 };
@@ -21502,7 +21513,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7200474585457206375u64));
+return Err(ParseError::FalsifiedWhere(13266006752343456203u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21523,7 +21534,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
 inner
 }
 };
@@ -21539,7 +21550,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13264741506377240721u64));
+return Err(ParseError::FalsifiedWhere(16152968816646114000u64));
 }
 };
 let language = {
@@ -21664,7 +21675,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -21689,7 +21700,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -21743,7 +21754,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -21828,7 +21839,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -21879,7 +21890,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -21895,7 +21906,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -21920,7 +21931,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -21936,7 +21947,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -21991,7 +22002,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -22007,7 +22018,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
 inner
 }
 };
@@ -22032,7 +22043,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
 inner
 }
 };
@@ -22048,7 +22059,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
 inner
 }
 };
@@ -22102,7 +22113,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
 inner
 }
 };
@@ -22118,7 +22129,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
 inner
 }
 };
@@ -22143,7 +22154,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
 inner
 }
 };
@@ -22159,7 +22170,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
 inner
 }
 };
@@ -22206,7 +22217,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
 inner
 }
 };
@@ -22222,7 +22233,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
 inner
 }
 };
@@ -22247,7 +22258,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
 inner
 }
 };
@@ -22263,7 +22274,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
 inner
 }
 };
@@ -22310,7 +22321,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
 inner
 }
 };
@@ -22335,7 +22346,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
 inner
 }
 };
@@ -22502,7 +22513,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4649034608147552416u64));
+return Err(ParseError::FalsifiedWhere(16096650375442290768u64));
 })
 }
 
@@ -22520,7 +22531,7 @@ elf_types_elf_full::Full64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(14339975513692068616u64));
 }
 })
 }
@@ -22539,7 +22550,7 @@ elf_types_elf_addr::Addr64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 }
 })
 }
@@ -22558,7 +22569,7 @@ elf_types_elf_off::Off64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 }
 })
 }
@@ -22688,7 +22699,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(12668500753644823654u64));
 }
 };
 let arg1 = {
@@ -22696,7 +22707,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12668500753644823654u64));
+return Err(ParseError::ExcludedBranch(8094248233631264621u64));
 }
 };
 let arg2 = {
@@ -22704,7 +22715,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8094248233631264621u64));
+return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 }
 };
 let arg3 = {
@@ -22712,7 +22723,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(4839194687019048322u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22748,7 +22759,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4839194687019048322u64));
+return Err(ParseError::ExcludedBranch(7230273548678969972u64));
 }
 };
 accum.push(next_elem)
@@ -22771,7 +22782,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7230273548678969972u64));
+return Err(ParseError::FalsifiedWhere(14903563845775542749u64));
 })
 }
 
@@ -22790,7 +22801,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14903563845775542749u64));
+return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
 })
 }
 
@@ -22820,7 +22831,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
+return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
 })
 }
 
@@ -22834,7 +22845,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
+return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
 })
 }
 
@@ -22848,7 +22859,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
+return Err(ParseError::FalsifiedWhere(15510952803379905659u64));
 })
 }
 
@@ -22909,7 +22920,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15510952803379905659u64));
+return Err(ParseError::ExcludedBranch(14681668243282477517u64));
 }
 };
 _input.close_peek_context()?;
@@ -22922,7 +22933,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14681668243282477517u64));
+return Err(ParseError::ExcludedBranch(6209434968043366837u64));
 }
 };
 accum.push(next_elem)
@@ -22959,7 +22970,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6209434968043366837u64));
+return Err(ParseError::ExcludedBranch(16474038368490899078u64));
 }
 };
 accum.push(next_elem)
@@ -22994,7 +23005,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16474038368490899078u64));
+return Err(ParseError::ExcludedBranch(12217686503432178884u64));
 }
 };
 _input.close_peek_context()?;
@@ -23007,7 +23018,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12217686503432178884u64));
+return Err(ParseError::ExcludedBranch(8399572043096922156u64));
 }
 };
 accum.push(next_elem)
@@ -23044,7 +23055,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(7832192330748800109u64));
 }
 };
 accum.push(next_elem)
@@ -23079,7 +23090,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7832192330748800109u64));
+return Err(ParseError::ExcludedBranch(9815657591077818003u64));
 }
 };
 _input.close_peek_context()?;
@@ -23092,7 +23103,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9815657591077818003u64));
+return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 }
 };
 accum.push(next_elem)
@@ -23129,7 +23140,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(16624020278885696461u64));
 }
 };
 accum.push(next_elem)
@@ -23152,10 +23163,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16624020278885696461u64));
+return Err(ParseError::ExcludedBranch(14485842416732585139u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8179432974518885725u64)
+try_sub!(bit as u8, 48u8, 5152282179373241998u64)
 };
 let _o9 = {
 let bit = {
@@ -23163,10 +23174,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5152282179373241998u64));
+return Err(ParseError::ExcludedBranch(13780055874544357936u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16909208071962620789u64)
+try_sub!(bit as u8, 48u8, 7933266403838225878u64)
 };
 let _o8 = {
 let bit = {
@@ -23174,10 +23185,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7933266403838225878u64));
+return Err(ParseError::ExcludedBranch(12100308281236296642u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9041056097467752267u64)
+try_sub!(bit as u8, 48u8, 5025197102194587315u64)
 };
 let _o7 = {
 let bit = {
@@ -23185,10 +23196,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5025197102194587315u64));
+return Err(ParseError::ExcludedBranch(3810055094392728880u64));
 }
 };
-try_sub!(bit as u8, 48u8, 15252450768049745444u64)
+try_sub!(bit as u8, 48u8, 5599331855309773603u64)
 };
 let _o6 = {
 let bit = {
@@ -23196,10 +23207,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5599331855309773603u64));
+return Err(ParseError::ExcludedBranch(16437491640759399344u64));
 }
 };
-try_sub!(bit as u8, 48u8, 2988545765690796708u64)
+try_sub!(bit as u8, 48u8, 6215067399528787845u64)
 };
 let _o5 = {
 let bit = {
@@ -23207,10 +23218,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6215067399528787845u64));
+return Err(ParseError::ExcludedBranch(17176374570344757031u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3566920116549027235u64)
+try_sub!(bit as u8, 48u8, 7979287392867129207u64)
 };
 let _o4 = {
 let bit = {
@@ -23218,10 +23229,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(3653195934333285574u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16671136947067655757u64)
+try_sub!(bit as u8, 48u8, 10721249873135158334u64)
 };
 let _o3 = {
 let bit = {
@@ -23229,10 +23240,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(8898504689444561451u64));
 }
 };
-try_sub!(bit as u8, 48u8, 441240706992005484u64)
+try_sub!(bit as u8, 48u8, 3950014938140253048u64)
 };
 let _o2 = {
 let bit = {
@@ -23240,10 +23251,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(10046433636842398056u64));
 }
 };
-try_sub!(bit as u8, 48u8, 11079395374415646537u64)
+try_sub!(bit as u8, 48u8, 757122060916971772u64)
 };
 let _o1 = {
 let bit = {
@@ -23251,10 +23262,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(5986772336072340665u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8812292064350598352u64)
+try_sub!(bit as u8, 48u8, 10645729856418057640u64)
 };
 let _o0 = {
 let bit = {
@@ -23262,10 +23273,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(2908689796368760670u64));
 }
 };
-try_sub!(bit as u8, 48u8, 4316175446384649956u64)
+try_sub!(bit as u8, 48u8, 13311790038092155306u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23293,7 +23304,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(4598583460226006268u64));
 }
 };
 _input.close_peek_context()?;
@@ -23306,7 +23317,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 accum.push(next_elem)
@@ -23343,7 +23354,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 accum.push(next_elem)
@@ -23378,7 +23389,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 }
 };
 _input.close_peek_context()?;
@@ -23391,7 +23402,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 accum.push(next_elem)
@@ -23428,7 +23439,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 accum.push(next_elem)
@@ -23457,7 +23468,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 let arg1 = {
@@ -23465,7 +23476,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 let arg2 = {
@@ -23473,7 +23484,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 let arg3 = {
@@ -23481,7 +23492,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 let arg4 = {
@@ -23489,7 +23500,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 let arg5 = {
@@ -23497,7 +23508,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23508,7 +23519,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 let arg1 = {
@@ -23516,7 +23527,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 (arg0, arg1)
@@ -23555,7 +23566,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 _input.close_peek_context()?;
@@ -23568,7 +23579,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 accum.push(next_elem)
@@ -23605,7 +23616,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 accum.push(next_elem)
@@ -23640,7 +23651,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 _input.close_peek_context()?;
@@ -23653,7 +23664,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 accum.push(next_elem)
@@ -23690,7 +23701,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1029952099207838423u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 accum.push(next_elem)
@@ -23720,7 +23731,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17327099206515189757u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 accum.push(next_elem)
@@ -23774,7 +23785,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14652068248613900169u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 accum.push(next_elem)
@@ -23808,7 +23819,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3089242474000390105u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 accum.push(next_elem)
@@ -23827,7 +23838,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8785324329127396734u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 })
 }
 
@@ -23866,7 +23877,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 accum.push(next_elem)
@@ -23902,7 +23913,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 accum.push(next_elem)
@@ -23933,7 +23944,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 _input.close_peek_context()?;
@@ -23946,7 +23957,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 accum.push(next_elem)
@@ -23988,7 +23999,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 accum.push(next_elem)
@@ -24014,7 +24025,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 _input.close_peek_context()?;
@@ -24028,7 +24039,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 let arg1 = {
@@ -24036,7 +24047,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -24048,7 +24059,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 let arg1 = {
@@ -24056,14 +24067,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 })
 }
@@ -24288,7 +24299,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 })
 } else {
 None
@@ -24310,7 +24321,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17715157964684782708u64));
+return Err(ParseError::FalsifiedWhere(9465826900165497155u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24342,7 +24353,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9465826900165497155u64));
+return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24478,7 +24489,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
+return Err(ParseError::FalsifiedWhere(6611121695530188940u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24512,7 +24523,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6611121695530188940u64));
+return Err(ParseError::FalsifiedWhere(9660375186237087060u64));
 }
 };
 let flags = {
@@ -24555,7 +24566,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9660375186237087060u64));
+return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24573,7 +24584,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11684704871632490773u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 }
 };
 let arg1 = {
@@ -24581,7 +24592,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 let arg2 = {
@@ -24589,7 +24600,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9710347097769530785u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 };
 let arg3 = {
@@ -24597,7 +24608,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24610,7 +24621,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 let arg1 = {
@@ -24618,7 +24629,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 let arg2 = {
@@ -24626,7 +24637,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 let arg3 = {
@@ -24634,7 +24645,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24680,7 +24691,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 let arg1 = {
@@ -24688,7 +24699,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 let arg2 = {
@@ -24696,7 +24707,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 let arg3 = {
@@ -24704,7 +24715,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24728,7 +24739,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 let arg1 = {
@@ -24736,7 +24747,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 let arg2 = {
@@ -24744,7 +24755,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 let arg3 = {
@@ -24752,7 +24763,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24783,7 +24794,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 };
 accum.push(next_elem)
@@ -24893,7 +24904,7 @@ png_trns::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 })
 }
@@ -24953,7 +24964,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
 };
 val.clone()
@@ -24963,7 +24974,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(14908034280634314212u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -25022,7 +25033,7 @@ png_sbit::color_type_6(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(3857251694269754536u64));
 }
 })
 }
@@ -25038,7 +25049,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3857251694269754536u64));
+return Err(ParseError::FalsifiedWhere(5041932778480497827u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -25053,7 +25064,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5041932778480497827u64));
+return Err(ParseError::ExcludedBranch(4514882359072253410u64));
 }
 };
 val.clone()
@@ -25063,7 +25074,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4514882359072253410u64));
+return Err(ParseError::ExcludedBranch(13286112843953025473u64));
 }
 };
 let compression_method = {
@@ -25071,7 +25082,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13286112843953025473u64));
+return Err(ParseError::ExcludedBranch(15541745679144160988u64));
 }
 };
 let language_tag = {
@@ -25091,7 +25102,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15541745679144160988u64));
+return Err(ParseError::ExcludedBranch(16366772103869684910u64));
 }
 };
 _input.close_peek_context()?;
@@ -25104,7 +25115,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16366772103869684910u64));
+return Err(ParseError::ExcludedBranch(16354405091856567045u64));
 }
 };
 accum.push(next_elem)
@@ -25119,7 +25130,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16354405091856567045u64));
+return Err(ParseError::ExcludedBranch(15047091743774256727u64));
 }
 };
 chars.clone()
@@ -25131,7 +25142,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15047091743774256727u64));
+return Err(ParseError::ExcludedBranch(89425857491903975u64));
 }
 };
 val.clone()
@@ -25222,7 +25233,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(89425857491903975u64));
+return Err(ParseError::ExcludedBranch(4693381172248071257u64));
 }
 };
 val.clone()
@@ -25264,7 +25275,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4693381172248071257u64));
+return Err(ParseError::ExcludedBranch(10755314521203959634u64));
 }
 };
 val.clone()
@@ -25274,7 +25285,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10755314521203959634u64));
+return Err(ParseError::ExcludedBranch(6506136565977297327u64));
 }
 };
 let compressed_text = {
@@ -25358,7 +25369,7 @@ png_bkgd::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+return Err(ParseError::ExcludedBranch(17617969929120925997u64));
 }
 })
 }
@@ -25419,7 +25430,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+return Err(ParseError::ExcludedBranch(9726369214549228587u64));
 }
 };
 val.clone()
@@ -25429,7 +25440,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+return Err(ParseError::ExcludedBranch(7323683635844484191u64));
 }
 };
 let palette = match sample_depth {
@@ -25524,7 +25535,7 @@ png_splt_palette::sample_depth_u16(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+return Err(ParseError::ExcludedBranch(2785003688991605442u64));
 }
 };
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
@@ -26028,12 +26039,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(2785003688991605442u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(17143373953369837893u64));
 }
@@ -26499,6 +26504,12 @@ return Err(ParseError::ExcludedBranch(12949211704949756849u64));
 _ => {
 return Err(ParseError::ExcludedBranch(4317621489266312319u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(868434092978367357u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -26512,7 +26523,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(868434092978367357u64));
+return Err(ParseError::ExcludedBranch(496554245154466536u64));
 }
 };
 accum.push(next_elem)
@@ -27006,12 +27017,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(496554245154466536u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(8244423856248085319u64));
 }
@@ -27477,6 +27482,12 @@ return Err(ParseError::ExcludedBranch(8533828000951561331u64));
 _ => {
 return Err(ParseError::ExcludedBranch(7620563226324297760u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3141147280724933447u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -27490,7 +27501,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3141147280724933447u64));
+return Err(ParseError::ExcludedBranch(5155365750119375266u64));
 }
 };
 accum.push(next_elem)
@@ -27516,7 +27527,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5155365750119375266u64));
+return Err(ParseError::FalsifiedWhere(6019636780841875619u64));
 }
 };
 let flags = {
@@ -28029,12 +28040,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(6019636780841875619u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(9286045119570450224u64));
 }
@@ -28500,6 +28505,12 @@ return Err(ParseError::ExcludedBranch(2609726213773413101u64));
 _ => {
 return Err(ParseError::ExcludedBranch(4688564412461098550u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4942686269660057715u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -28513,7 +28524,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4942686269660057715u64));
+return Err(ParseError::ExcludedBranch(9251320185524837870u64));
 }
 };
 accum.push(next_elem)
@@ -29007,12 +29018,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(9251320185524837870u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(16934907723271638747u64));
 }
@@ -29478,6 +29483,12 @@ return Err(ParseError::ExcludedBranch(13594649006224468849u64));
 _ => {
 return Err(ParseError::ExcludedBranch(14349391981174483355u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(10927780046062734427u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -29491,7 +29502,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10927780046062734427u64));
+return Err(ParseError::ExcludedBranch(13819997351842221509u64));
 }
 };
 accum.push(next_elem)
@@ -29550,7 +29561,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13819997351842221509u64));
+return Err(ParseError::ExcludedBranch(11959902760514814588u64));
 }
 };
 _input.close_peek_context()?;
@@ -29583,7 +29594,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11959902760514814588u64));
+return Err(ParseError::FalsifiedWhere(14114750189009003637u64));
 }
 };
 let flags = {
@@ -30237,12 +30248,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(14114750189009003637u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(12268471799124361536u64));
 }
@@ -30708,6 +30713,12 @@ return Err(ParseError::ExcludedBranch(760820951392925727u64));
 _ => {
 return Err(ParseError::ExcludedBranch(14363790737598139216u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4600414761378562541u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -30721,7 +30732,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4600414761378562541u64));
+return Err(ParseError::ExcludedBranch(18313399323903636110u64));
 }
 };
 accum.push(next_elem)
@@ -30747,7 +30758,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18313399323903636110u64));
+return Err(ParseError::FalsifiedWhere(15786118691017431738u64));
 }
 };
 let flags = {
@@ -30783,7 +30794,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15786118691017431738u64));
+return Err(ParseError::ExcludedBranch(16165934354425559621u64));
 }
 };
 let arg1 = {
@@ -30791,7 +30802,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16165934354425559621u64));
+return Err(ParseError::ExcludedBranch(16399036514137665776u64));
 }
 };
 let arg2 = {
@@ -30799,7 +30810,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16399036514137665776u64));
+return Err(ParseError::ExcludedBranch(7931358881575056193u64));
 }
 };
 let arg3 = {
@@ -30807,7 +30818,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7931358881575056193u64));
+return Err(ParseError::ExcludedBranch(17863486658382945784u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30848,7 +30859,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11515797873012483658u64)
+try_sub!(x, 16u64, 8584109755265226714u64)
 },
 
 _ => {
@@ -31026,7 +31037,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8076978189295213982u64)
+try_sub!(x, 16u64, 11570281271401624317u64)
 },
 
 _ => {
@@ -31060,7 +31071,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14687724984806605719u64)
+try_sub!(x, 16u64, 1378805635639824117u64)
 },
 
 _ => {
@@ -31221,7 +31232,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1378805635639824117u64));
+return Err(ParseError::ExcludedBranch(8385173961957899741u64));
 }
 };
 let rate = {
@@ -31293,7 +31304,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8407356061009412694u64)
+try_sub!(x, 16u64, 6881565717664829242u64)
 },
 
 _ => {
@@ -31419,7 +31430,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 13752480002470540422u64)
+try_sub!(x, 16u64, 17107648091243309207u64)
 },
 
 _ => {
@@ -31558,7 +31569,7 @@ mpeg4_tkhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17107648091243309207u64));
+return Err(ParseError::ExcludedBranch(5534609128357633386u64));
 }
 };
 let reserved2 = {
@@ -31627,7 +31638,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14539762430836305896u64)
+try_sub!(x, 16u64, 16625761205375889740u64)
 },
 
 _ => {
@@ -31695,7 +31706,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 2662265345698212949u64)
+try_sub!(x, 16u64, 3344648651879382526u64)
 },
 
 _ => {
@@ -31823,7 +31834,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3344648651879382526u64));
+return Err(ParseError::ExcludedBranch(8599210436172030522u64));
 }
 };
 _input.close_peek_context()?;
@@ -31836,7 +31847,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8599210436172030522u64));
+return Err(ParseError::ExcludedBranch(3484767027554133518u64));
 }
 };
 accum.push(next_elem)
@@ -31851,7 +31862,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3484767027554133518u64));
+return Err(ParseError::ExcludedBranch(15403934492100194569u64));
 }
 };
 chars.clone()
@@ -31911,7 +31922,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15403934492100194569u64));
+return Err(ParseError::ExcludedBranch(12041148194529633639u64));
 }
 };
 let language = {
@@ -31942,7 +31953,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 2288772415159374970u64)
+try_sub!(x, 16u64, 17888323854924040413u64)
 },
 
 _ => {
@@ -32110,7 +32121,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 6279087434444973374u64)
+try_sub!(x, 16u64, 11074951631636946051u64)
 },
 
 _ => {
@@ -32178,7 +32189,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15601622509425384091u64)
+try_sub!(x, 16u64, 13675295148592556047u64)
 },
 
 _ => {
@@ -32587,7 +32598,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 4569970360394099475u64)
+try_sub!(x, 16u64, 9110520999974091875u64)
 },
 
 _ => {
@@ -32681,7 +32692,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15293691521783146694u64)
+try_sub!(x, 16u64, 15433822888775103886u64)
 },
 
 _ => {
@@ -32945,7 +32956,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15433822888775103886u64));
+return Err(ParseError::ExcludedBranch(8403192837054512577u64));
 }
 };
 _input.close_peek_context()?;
@@ -32958,7 +32969,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(17073037115051226650u64));
 }
 };
 accum.push(next_elem)
@@ -32973,7 +32984,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(3975307768385535064u64));
 }
 };
 chars.clone()
@@ -33098,7 +33109,7 @@ mpeg4_iref_data_single_item_reference::large(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -33183,7 +33194,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 }
 };
 let extent_count = {
@@ -33224,7 +33235,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 12017601628070515145u64)
+try_sub!(x, 16u64, 1872233699568519226u64)
 },
 
 _ => {
@@ -33316,7 +33327,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 10708294527730390829u64)
+try_sub!(x, 16u64, 7432469293302627017u64)
 },
 
 _ => {
@@ -33426,7 +33437,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33448,7 +33459,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(9159119361499271180u64));
 }
 };
 let extent_length = match length_size {
@@ -33470,7 +33481,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33493,7 +33504,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3490919313637905107u64)
+try_sub!(x, 16u64, 9331389203258424019u64)
 },
 
 _ => {
@@ -33548,7 +33559,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16679512278832019969u64)
+try_sub!(x, 16u64, 15311158871930328757u64)
 },
 
 _ => {
@@ -33603,7 +33614,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 9892894478446917378u64)
+try_sub!(x, 16u64, 3585635225240718191u64)
 },
 
 _ => {
@@ -33704,7 +33715,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3585635225240718191u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 }
 };
 _input.close_peek_context()?;
@@ -33717,7 +33728,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 }
 };
 accum.push(next_elem)
@@ -33732,7 +33743,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 }
 };
 chars.clone()
@@ -33754,7 +33765,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 };
 _input.close_peek_context()?;
@@ -33767,7 +33778,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 }
 };
 accum.push(next_elem)
@@ -33782,7 +33793,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 };
 chars.clone()
@@ -33804,7 +33815,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 };
 _input.close_peek_context()?;
@@ -33817,7 +33828,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 };
 accum.push(next_elem)
@@ -33832,7 +33843,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 };
 chars.clone()
@@ -33878,7 +33889,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 _input.close_peek_context()?;
@@ -33891,7 +33902,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 };
 accum.push(next_elem)
@@ -33906,7 +33917,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 };
 chars.clone()
@@ -33953,7 +33964,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 _input.close_peek_context()?;
@@ -33966,7 +33977,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 accum.push(next_elem)
@@ -33981,7 +33992,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 chars.clone()
@@ -34008,7 +34019,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 _input.close_peek_context()?;
@@ -34021,7 +34032,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 accum.push(next_elem)
@@ -34036,7 +34047,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 chars.clone()
@@ -34051,7 +34062,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 let marker = {
@@ -34059,7 +34070,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34214,11 +34225,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34339,11 +34350,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34359,7 +34370,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 }
 };
@@ -34465,11 +34476,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34494,7 +34505,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 };
 let marker = {
@@ -34502,7 +34513,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34525,11 +34536,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34547,7 +34558,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 })
 }
@@ -34645,11 +34656,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34762,7 +34773,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 })
 }
@@ -34828,11 +34839,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34905,7 +34916,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 })
 }
@@ -35010,11 +35021,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 };
 _input.close_peek_context()?;
 ret
@@ -35042,7 +35053,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 };
 let marker = {
@@ -35050,7 +35061,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 };
 jpeg_soi { marker }
@@ -35169,11 +35180,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 };
 _input.close_peek_context()?;
 ret
@@ -35201,7 +35212,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 let marker = {
@@ -35209,7 +35220,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3011460078285478248u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 };
 jpeg_soi { marker }
@@ -35372,13 +35383,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4614223265245060097u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 };
 _input.close_peek_context()?;
@@ -35483,13 +35494,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2858990937242709991u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13162270726566423196u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 };
 _input.close_peek_context()?;
@@ -35543,7 +35554,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 })
 }
@@ -35563,7 +35574,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 };
 _input.close_peek_context()?;
@@ -35576,7 +35587,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 },
 
@@ -35587,7 +35598,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 let arg1 = {
@@ -35595,7 +35606,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 (arg0, arg1)
@@ -35604,7 +35615,7 @@ return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 })
 }
@@ -35616,7 +35627,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 let marker = {
@@ -35624,7 +35635,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35637,7 +35648,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 let marker = {
@@ -35645,7 +35656,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35658,7 +35669,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 let marker = {
@@ -35666,7 +35677,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35679,7 +35690,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 let marker = {
@@ -35687,7 +35698,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35700,7 +35711,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 let marker = {
@@ -35708,7 +35719,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35721,7 +35732,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 let marker = {
@@ -35729,7 +35740,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35742,7 +35753,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 let marker = {
@@ -35750,7 +35761,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35763,7 +35774,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 let marker = {
@@ -35771,7 +35782,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35788,7 +35799,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4528919599938425798u64));
+return Err(ParseError::FalsifiedWhere(12955185663715491460u64));
 }
 };
 let image_components = {
@@ -35808,7 +35819,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12955185663715491460u64));
+return Err(ParseError::FalsifiedWhere(6221053009072016381u64));
 }
 };
 let end_spectral_selection = {
@@ -35820,7 +35831,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6221053009072016381u64));
+return Err(ParseError::FalsifiedWhere(4825757476091239776u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35857,7 +35868,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4825757476091239776u64));
+return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
 })
 }
 
@@ -35875,7 +35886,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
+return Err(ParseError::FalsifiedWhere(12525311251009778949u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -36029,13 +36040,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14962551735998681614u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 _input.close_peek_context()?;
@@ -36099,7 +36110,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2007599397777734421u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 let marker = {
@@ -36107,7 +36118,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18069850277258932991u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 };
 jpeg_soi { marker }
@@ -36134,7 +36145,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(180881308211696508u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 };
 let marker = {
@@ -36142,7 +36153,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 };
 jpeg_soi { marker }
@@ -36169,7 +36180,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 let marker = {
@@ -36177,7 +36188,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 jpeg_soi { marker }
@@ -36204,7 +36215,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 let marker = {
@@ -36212,7 +36223,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 jpeg_soi { marker }
@@ -36239,7 +36250,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 let marker = {
@@ -36247,7 +36258,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 jpeg_soi { marker }
@@ -36274,7 +36285,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 let marker = {
@@ -36282,7 +36293,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 jpeg_soi { marker }
@@ -36309,7 +36320,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 let marker = {
@@ -36317,7 +36328,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 jpeg_soi { marker }
@@ -36344,7 +36355,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 let marker = {
@@ -36352,7 +36363,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 jpeg_soi { marker }
@@ -36379,7 +36390,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 let marker = {
@@ -36387,7 +36398,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 jpeg_soi { marker }
@@ -36414,7 +36425,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 let marker = {
@@ -36422,7 +36433,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 jpeg_soi { marker }
@@ -36449,7 +36460,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 let marker = {
@@ -36457,7 +36468,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 jpeg_soi { marker }
@@ -36484,7 +36495,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 let marker = {
@@ -36492,7 +36503,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 jpeg_soi { marker }
@@ -36519,7 +36530,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 let marker = {
@@ -36527,7 +36538,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 jpeg_soi { marker }
@@ -36557,7 +36568,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2651182070283403637u64));
+return Err(ParseError::FalsifiedWhere(8284996377131534070u64));
 }
 };
 let num_lines = {
@@ -36576,7 +36587,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8284996377131534070u64));
+return Err(ParseError::FalsifiedWhere(16948595091237008543u64));
 }
 };
 let num_image_components = {
@@ -36588,7 +36599,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16948595091237008543u64));
+return Err(ParseError::FalsifiedWhere(108256050843388088u64));
 }
 };
 let image_components = {
@@ -36620,7 +36631,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(108256050843388088u64));
+return Err(ParseError::FalsifiedWhere(7834223795690054720u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36634,7 +36645,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 let marker = {
@@ -36642,7 +36653,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 jpeg_soi { marker }
@@ -36697,7 +36708,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 let marker = {
@@ -36705,7 +36716,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 jpeg_soi { marker }
@@ -36732,7 +36743,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 let marker = {
@@ -36740,7 +36751,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 jpeg_soi { marker }
@@ -36767,7 +36778,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 let marker = {
@@ -36775,7 +36786,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 jpeg_soi { marker }
@@ -36802,7 +36813,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 let marker = {
@@ -36810,7 +36821,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 jpeg_soi { marker }
@@ -36837,7 +36848,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 let marker = {
@@ -36845,7 +36856,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 jpeg_soi { marker }
@@ -36872,7 +36883,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 let marker = {
@@ -36880,7 +36891,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 jpeg_soi { marker }
@@ -36931,7 +36942,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 let marker = {
@@ -36939,7 +36950,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 jpeg_soi { marker }
@@ -36990,7 +37001,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 let marker = {
@@ -36998,7 +37009,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 jpeg_soi { marker }
@@ -37049,7 +37060,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 let marker = {
@@ -37057,7 +37068,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 jpeg_soi { marker }
@@ -37108,7 +37119,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 let marker = {
@@ -37116,7 +37127,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 jpeg_soi { marker }
@@ -37167,7 +37178,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4491050975676636472u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 let marker = {
@@ -37175,7 +37186,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 jpeg_soi { marker }
@@ -37226,7 +37237,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10865781264025109219u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 let marker = {
@@ -37234,7 +37245,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1125515999835788388u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 jpeg_soi { marker }
@@ -37285,7 +37296,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6928743980636918648u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 let marker = {
@@ -37293,7 +37304,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 jpeg_soi { marker }
@@ -37344,7 +37355,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 let marker = {
@@ -37352,7 +37363,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 jpeg_soi { marker }
@@ -37403,7 +37414,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 let marker = {
@@ -37411,7 +37422,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 jpeg_soi { marker }
@@ -37462,7 +37473,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 let marker = {
@@ -37470,7 +37481,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 jpeg_soi { marker }
@@ -37521,7 +37532,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 let marker = {
@@ -37529,7 +37540,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 jpeg_soi { marker }
@@ -37580,7 +37591,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 let marker = {
@@ -37588,7 +37599,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 jpeg_soi { marker }
@@ -37639,7 +37650,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 let marker = {
@@ -37647,7 +37658,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 jpeg_soi { marker }
@@ -37698,7 +37709,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 let marker = {
@@ -37706,7 +37717,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 jpeg_soi { marker }
@@ -37768,7 +37779,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 _input.close_peek_context()?;
@@ -37781,7 +37792,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 accum.push(next_elem)
@@ -37796,7 +37807,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 chars.clone()
@@ -37856,7 +37867,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37912,7 +37923,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 _input.close_peek_context()?;
@@ -37925,7 +37936,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 accum.push(next_elem)
@@ -37940,7 +37951,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 chars.clone()
@@ -38001,7 +38012,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12431089125438936538u64));
+return Err(ParseError::FalsifiedWhere(9066809807580136020u64));
 }
 };
 let density_x = {
@@ -38016,7 +38027,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9066809807580136020u64));
+return Err(ParseError::FalsifiedWhere(12347909352078849049u64));
 }
 };
 let density_y = {
@@ -38031,7 +38042,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12347909352078849049u64));
+return Err(ParseError::FalsifiedWhere(10900015085754267678u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -38093,7 +38104,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10900015085754267678u64));
+return Err(ParseError::FalsifiedWhere(5999000939515818447u64));
 })
 }
 
@@ -38148,7 +38159,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5999000939515818447u64));
+return Err(ParseError::FalsifiedWhere(10508718825232435214u64));
 })
 }
 
@@ -38183,7 +38194,7 @@ jpeg_dqt_data_elements::Shorts(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 }
 })
 }
@@ -38206,7 +38217,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 };
 _input.close_peek_context()?;
@@ -38219,7 +38230,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 accum.push(next_elem)
@@ -38234,7 +38245,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38259,7 +38270,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 _input.close_peek_context()?;
@@ -38272,7 +38283,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 accum.push(next_elem)
@@ -38287,7 +38298,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 chars.clone()
@@ -38378,7 +38389,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 _input.close_peek_context()?;
@@ -38406,7 +38417,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 accum.push(next_elem)
@@ -38439,7 +38450,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 accum.push(next_elem)
@@ -38470,7 +38481,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 _input.close_peek_context()?;
@@ -38483,7 +38494,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 accum.push(next_elem)
@@ -38498,7 +38509,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38523,7 +38534,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 _input.close_peek_context()?;
@@ -38536,7 +38547,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 accum.push(next_elem)
@@ -38551,7 +38562,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 chars.clone()
@@ -38567,7 +38578,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 let arg1 = {
@@ -38575,7 +38586,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 let arg2 = {
@@ -38583,7 +38594,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38633,7 +38644,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 }
 },
@@ -38643,7 +38654,7 @@ return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 _input.close_peek_context()?;
@@ -38662,7 +38673,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 })
 }
@@ -38674,7 +38685,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38698,7 +38709,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 }
 },
@@ -38708,7 +38719,7 @@ return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 };
 _input.close_peek_context()?;
@@ -38725,7 +38736,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 }
 };
@@ -38750,11 +38761,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38772,7 +38783,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 })
 }
@@ -38784,7 +38795,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 };
 let label = {
@@ -38792,7 +38803,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 };
 let block_size = {
@@ -38800,7 +38811,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 };
 let identifier = {
@@ -38828,7 +38839,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 };
 _input.close_peek_context()?;
@@ -38855,7 +38866,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 let label = {
@@ -38863,7 +38874,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 };
 let comment_data = {
@@ -38882,7 +38893,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 _input.close_peek_context()?;
@@ -38909,7 +38920,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8635718010611311692u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 };
 let data = {
@@ -38929,7 +38940,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 })
 }
 
@@ -38940,7 +38951,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 let label = {
@@ -38948,7 +38959,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 let block_size = {
@@ -38956,7 +38967,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38984,7 +38995,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 _input.close_peek_context()?;
@@ -39003,7 +39014,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 })
 }
@@ -39032,7 +39043,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 let label = {
@@ -39040,7 +39051,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 };
 let block_size = {
@@ -39048,7 +39059,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10796441316268123402u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 };
 let text_grid_left_position = {
@@ -39087,7 +39098,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11138707079467673507u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 _input.close_peek_context()?;
@@ -39114,7 +39125,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4276041640044341942u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 };
 let image_left_position = {
@@ -39164,7 +39175,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13415341611905239200u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 };
 _input.close_peek_context()?;
@@ -39295,12 +39306,6 @@ match _input.read_byte()? {
 9
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(8346764656077042415u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
@@ -39346,6 +39351,12 @@ return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 _ => {
 return Err(ParseError::ExcludedBranch(7814984350356971595u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8834940284440365505u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -39359,7 +39370,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8834940284440365505u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 }
 };
 accum.push(next_elem)
@@ -39373,7 +39384,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11138532932579103751u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 };
 (arg0, arg1)
@@ -39401,7 +39412,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1640368834587091796u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39434,7 +39445,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14970223179097094798u64));
+return Err(ParseError::FalsifiedWhere(15666641356442195125u64));
 }
 };
 let num_image_components = {
@@ -39446,7 +39457,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15666641356442195125u64));
+return Err(ParseError::FalsifiedWhere(8003682420837492218u64));
 }
 };
 let image_components = {
@@ -39469,7 +39480,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8003682420837492218u64));
+return Err(ParseError::ExcludedBranch(6672851768458061412u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39491,7 +39502,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6672851768458061412u64));
+return Err(ParseError::FalsifiedWhere(5694490278249537684u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39505,7 +39516,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5694490278249537684u64));
+return Err(ParseError::ExcludedBranch(17498679062468273557u64));
 }
 };
 let marker = {
@@ -39513,7 +39524,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17498679062468273557u64));
+return Err(ParseError::ExcludedBranch(15004954221525838533u64));
 }
 };
 jpeg_soi { marker }
@@ -39564,7 +39575,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15004954221525838533u64));
+return Err(ParseError::ExcludedBranch(9104412661124805519u64));
 }
 };
 let marker = {
@@ -39572,7 +39583,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9104412661124805519u64));
+return Err(ParseError::ExcludedBranch(13731807471966330507u64));
 }
 };
 jpeg_soi { marker }
@@ -39610,7 +39621,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13731807471966330507u64));
+return Err(ParseError::FalsifiedWhere(13391927636850586680u64));
 }
 };
 let num_image_components = {
@@ -39622,7 +39633,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13391927636850586680u64));
+return Err(ParseError::FalsifiedWhere(5585407796242218698u64));
 }
 };
 let image_components = {
@@ -39644,7 +39655,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5585407796242218698u64));
+return Err(ParseError::ExcludedBranch(7581188615734068888u64));
 }
 };
 let marker = {
@@ -39652,7 +39663,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7581188615734068888u64));
+return Err(ParseError::ExcludedBranch(401211890982280023u64));
 }
 };
 jpeg_soi { marker }
@@ -39687,7 +39698,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(401211890982280023u64));
+return Err(ParseError::FalsifiedWhere(8351383702383589488u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
-- 
2.43.0


From 9c10de3dd081685436f246f966b34d5c5de55d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:28 +0000
Subject: [PATCH 32/46] fix: mpeg4 atoms refuse sizes smaller than their own
 header instead of underflowing

---
 doodle-formats/src/format/mpeg4.rs |  19 +-
 generated/gencode.rs               | 927 ++++++++++++++++++++---------
 2 files changed, 676 insertions(+), 270 deletions(-)

diff --git a/doodle-formats/src/format/mpeg4.rs b/doodle-formats/src/format/mpeg4.rs
index c5200f9..bf2c62e 100644
--- a/doodle-formats/src/format/mpeg4.rs
+++ b/doodle-formats/src/format/mpeg4.rs
@@ -30,9 +30,21 @@ fn tag_pattern3(tag: [char; 3]) -> Pattern {
 // TODO - add a relevant reference hint for where this appears in the spec
 // TODO - refactor so that either `data` is a FormatRef, or creates a definition corresponding to it
 fn make_atom(tag: FormatRef, data: Format) -> Format {
-    record([
+    record_auto([
         ("size-field", u32be()),
         ("type", tag.call()),
+        (
+            // any size given in full includes the header (size 0 and 1 are escapes)
+            "__size-field-check",
+            where_lambda(
+                compute(var("size-field")),
+                "n",
+                or(
+                    expr_lte(var("n"), Expr::U32(1)),
+                    expr_gte(var("n"), Expr::U32(8)),
+                ),
+            ),
+        ),
         (
             "size",
             Format::Match(
@@ -41,7 +53,10 @@ fn make_atom(tag: FormatRef, data: Format) -> Format {
                     (Pattern::U32(0), compute(Expr::U64(0))), // FIXME
                     (
                         Pattern::U32(1),
-                        map(u64be(), lambda("x", sub(var("x"), Expr::U64(16)))),
+                        map(
+                            where_lambda(u64be(), "x", expr_gte(var("x"), Expr::U64(16))),
+                            lambda("x", sub(var("x"), Expr::U64(16))),
+                        ),
                     ),
                     (
                         Pattern::Wildcard,
diff --git a/generated/gencode.rs b/generated/gencode.rs
index b832694..c2282be 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -30849,6 +30849,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(11515797873012483658u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -30856,10 +30868,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8584109755265226714u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(8584109755265226714u64));
+}
+};
+try_sub!(x, 16u64, 11570281271401624317u64)
 },
 
 _ => {
@@ -31027,6 +31050,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(14687724984806605719u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -31034,10 +31069,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11570281271401624317u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(1378805635639824117u64));
+}
+};
+try_sub!(x, 16u64, 8407356061009412694u64)
 },
 
 _ => {
@@ -31061,6 +31107,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(6881565717664829242u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -31068,10 +31126,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 1378805635639824117u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(13752480002470540422u64));
+}
+};
+try_sub!(x, 16u64, 5534609128357633386u64)
 },
 
 _ => {
@@ -31232,7 +31301,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8385173961957899741u64));
+return Err(ParseError::ExcludedBranch(14539762430836305896u64));
 }
 };
 let rate = {
@@ -31294,6 +31363,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(16625761205375889740u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -31301,10 +31382,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 6881565717664829242u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(2662265345698212949u64));
+}
+};
+try_sub!(x, 16u64, 8599210436172030522u64)
 },
 
 _ => {
@@ -31420,6 +31512,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(3484767027554133518u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -31427,10 +31531,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 17107648091243309207u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(15403934492100194569u64));
+}
+};
+try_sub!(x, 16u64, 2288772415159374970u64)
 },
 
 _ => {
@@ -31569,7 +31684,7 @@ mpeg4_tkhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5534609128357633386u64));
+return Err(ParseError::ExcludedBranch(17888323854924040413u64));
 }
 };
 let reserved2 = {
@@ -31628,6 +31743,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(6279087434444973374u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -31635,10 +31762,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(11074951631636946051u64));
+}
+};
+try_sub!(x, 16u64, 13675295148592556047u64)
 },
 
 _ => {
@@ -31696,6 +31834,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(4569970360394099475u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -31703,10 +31853,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3344648651879382526u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(9110520999974091875u64));
+}
+};
+try_sub!(x, 16u64, 15433822888775103886u64)
 },
 
 _ => {
@@ -31834,7 +31995,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8599210436172030522u64));
+return Err(ParseError::ExcludedBranch(8403192837054512577u64));
 }
 };
 _input.close_peek_context()?;
@@ -31847,7 +32008,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3484767027554133518u64));
+return Err(ParseError::ExcludedBranch(17073037115051226650u64));
 }
 };
 accum.push(next_elem)
@@ -31862,7 +32023,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15403934492100194569u64));
+return Err(ParseError::ExcludedBranch(3975307768385535064u64));
 }
 };
 chars.clone()
@@ -31922,7 +32083,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12041148194529633639u64));
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 }
 };
 let language = {
@@ -31943,6 +32104,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(16112061863928357291u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -31950,10 +32123,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 17888323854924040413u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(12017601628070515145u64));
+}
+};
+try_sub!(x, 16u64, 10708294527730390829u64)
 },
 
 _ => {
@@ -32111,6 +32295,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(7432469293302627017u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -32118,10 +32314,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11074951631636946051u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(13181260675040079306u64));
+}
+};
+try_sub!(x, 16u64, 7795160901559545235u64)
 },
 
 _ => {
@@ -32179,6 +32386,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(3490919313637905107u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -32186,10 +32405,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 13675295148592556047u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(9331389203258424019u64));
+}
+};
+try_sub!(x, 16u64, 15311158871930328757u64)
 },
 
 _ => {
@@ -32588,6 +32818,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(9892894478446917378u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -32595,10 +32837,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 9110520999974091875u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(3585635225240718191u64));
+}
+};
+try_sub!(x, 16u64, 237665900562449517u64)
 },
 
 _ => {
@@ -32682,6 +32935,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(13751590285972774894u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -32689,10 +32954,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15433822888775103886u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(12552648416444111338u64));
+}
+};
+try_sub!(x, 16u64, 10776065777346510440u64)
 },
 
 _ => {
@@ -32956,7 +33232,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 };
 _input.close_peek_context()?;
@@ -32969,7 +33245,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 };
 accum.push(next_elem)
@@ -32984,7 +33260,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 };
 chars.clone()
@@ -33109,7 +33385,7 @@ mpeg4_iref_data_single_item_reference::large(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -33194,7 +33470,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 };
 let extent_count = {
@@ -33225,6 +33501,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(11582380281701370059u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -33232,10 +33520,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 1872233699568519226u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(7228157205966134869u64));
+}
+};
+try_sub!(x, 16u64, 9924059786910440358u64)
 },
 
 _ => {
@@ -33317,6 +33616,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(7274029685341305701u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -33324,10 +33635,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7432469293302627017u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(16051783775494465147u64));
+}
+};
+try_sub!(x, 16u64, 5892114170581446733u64)
 },
 
 _ => {
@@ -33437,7 +33759,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33459,7 +33781,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 };
 let extent_length = match length_size {
@@ -33481,7 +33803,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33494,6 +33816,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(17983075411320920965u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -33501,10 +33835,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 9331389203258424019u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(7023661717588102849u64));
+}
+};
+try_sub!(x, 16u64, 9960855096836829935u64)
 },
 
 _ => {
@@ -33549,6 +33894,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(218475477370319322u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -33556,10 +33913,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15311158871930328757u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(18357658168615546095u64));
+}
+};
+try_sub!(x, 16u64, 15859964085544252343u64)
 },
 
 _ => {
@@ -33604,6 +33972,18 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 };
 let r#type = (Decoder317(_input))?;
+{
+let inner = size_field;
+let is_valid = {
+let n = inner;
+(n <= 1u32) || (n >= 8u32)
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(653325817133119558u64));
+}
+};
 let size = match size_field {
 0u32 => {
 0u64
@@ -33611,10 +33991,21 @@ let size = match size_field {
 
 1u32 => {
 let x = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3585635225240718191u64)
+let is_valid = {
+let x = inner;
+x >= 16u64
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(3349032559334020401u64));
+}
+};
+try_sub!(x, 16u64, 8350850950759220429u64)
 },
 
 _ => {
@@ -33715,7 +34106,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 };
 _input.close_peek_context()?;
@@ -33728,7 +34119,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 };
 accum.push(next_elem)
@@ -33743,7 +34134,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 };
 chars.clone()
@@ -33765,7 +34156,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 };
 _input.close_peek_context()?;
@@ -33778,7 +34169,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 };
 accum.push(next_elem)
@@ -33793,7 +34184,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 }
 };
 chars.clone()
@@ -33815,7 +34206,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 };
 _input.close_peek_context()?;
@@ -33828,7 +34219,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 };
 accum.push(next_elem)
@@ -33843,7 +34234,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 };
 chars.clone()
@@ -33889,7 +34280,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 };
 _input.close_peek_context()?;
@@ -33902,7 +34293,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 accum.push(next_elem)
@@ -33917,7 +34308,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 };
 chars.clone()
@@ -33964,7 +34355,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 };
 _input.close_peek_context()?;
@@ -33977,7 +34368,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 };
 accum.push(next_elem)
@@ -33992,7 +34383,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 };
 chars.clone()
@@ -34019,7 +34410,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 };
 _input.close_peek_context()?;
@@ -34032,7 +34423,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 };
 accum.push(next_elem)
@@ -34047,7 +34438,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 };
 chars.clone()
@@ -34062,7 +34453,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 let marker = {
@@ -34070,7 +34461,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34225,11 +34616,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34350,11 +34741,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34370,7 +34761,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 }
 };
@@ -34476,11 +34867,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34505,7 +34896,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 let marker = {
@@ -34513,7 +34904,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34536,11 +34927,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34558,7 +34949,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 })
 }
@@ -34656,11 +35047,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34773,7 +35164,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 })
 }
@@ -34839,11 +35230,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34916,7 +35307,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 })
 }
@@ -35021,11 +35412,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 };
 _input.close_peek_context()?;
 ret
@@ -35053,7 +35444,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 let marker = {
@@ -35061,7 +35452,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 };
 jpeg_soi { marker }
@@ -35180,11 +35571,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 };
 _input.close_peek_context()?;
 ret
@@ -35212,7 +35603,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3011460078285478248u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 let marker = {
@@ -35220,7 +35611,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 jpeg_soi { marker }
@@ -35383,13 +35774,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4614223265245060097u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2858990937242709991u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 };
 _input.close_peek_context()?;
@@ -35494,13 +35885,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13162270726566423196u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 _input.close_peek_context()?;
@@ -35554,7 +35945,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 })
 }
@@ -35574,7 +35965,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 _input.close_peek_context()?;
@@ -35587,7 +35978,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 },
 
@@ -35598,7 +35989,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 let arg1 = {
@@ -35606,7 +35997,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 (arg0, arg1)
@@ -35615,7 +36006,7 @@ return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 })
 }
@@ -35627,7 +36018,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 let marker = {
@@ -35635,7 +36026,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35648,7 +36039,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 let marker = {
@@ -35656,7 +36047,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35669,7 +36060,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 let marker = {
@@ -35677,7 +36068,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35690,7 +36081,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 let marker = {
@@ -35698,7 +36089,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35711,7 +36102,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 let marker = {
@@ -35719,7 +36110,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35732,7 +36123,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 let marker = {
@@ -35740,7 +36131,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35753,7 +36144,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 let marker = {
@@ -35761,7 +36152,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35774,7 +36165,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 let marker = {
@@ -35782,7 +36173,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35799,7 +36190,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12955185663715491460u64));
+return Err(ParseError::FalsifiedWhere(16948595091237008543u64));
 }
 };
 let image_components = {
@@ -35819,7 +36210,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6221053009072016381u64));
+return Err(ParseError::FalsifiedWhere(108256050843388088u64));
 }
 };
 let end_spectral_selection = {
@@ -35831,7 +36222,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4825757476091239776u64));
+return Err(ParseError::FalsifiedWhere(7834223795690054720u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35868,7 +36259,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
+return Err(ParseError::FalsifiedWhere(787921071240225899u64));
 })
 }
 
@@ -35886,7 +36277,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12525311251009778949u64));
+return Err(ParseError::FalsifiedWhere(11557974043504662535u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -36040,13 +36431,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14962551735998681614u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2007599397777734421u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 _input.close_peek_context()?;
@@ -36110,7 +36501,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18069850277258932991u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 let marker = {
@@ -36118,7 +36509,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(180881308211696508u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 jpeg_soi { marker }
@@ -36145,7 +36536,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 let marker = {
@@ -36153,7 +36544,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 jpeg_soi { marker }
@@ -36180,7 +36571,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 let marker = {
@@ -36188,7 +36579,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 jpeg_soi { marker }
@@ -36215,7 +36606,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 let marker = {
@@ -36223,7 +36614,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 jpeg_soi { marker }
@@ -36250,7 +36641,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 let marker = {
@@ -36258,7 +36649,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 jpeg_soi { marker }
@@ -36285,7 +36676,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 let marker = {
@@ -36293,7 +36684,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 jpeg_soi { marker }
@@ -36320,7 +36711,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 let marker = {
@@ -36328,7 +36719,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 jpeg_soi { marker }
@@ -36355,7 +36746,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 let marker = {
@@ -36363,7 +36754,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 jpeg_soi { marker }
@@ -36390,7 +36781,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 let marker = {
@@ -36398,7 +36789,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 jpeg_soi { marker }
@@ -36425,7 +36816,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 let marker = {
@@ -36433,7 +36824,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 jpeg_soi { marker }
@@ -36460,7 +36851,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 let marker = {
@@ -36468,7 +36859,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 jpeg_soi { marker }
@@ -36495,7 +36886,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 let marker = {
@@ -36503,7 +36894,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 jpeg_soi { marker }
@@ -36530,7 +36921,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 let marker = {
@@ -36538,7 +36929,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 jpeg_soi { marker }
@@ -36568,7 +36959,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8284996377131534070u64));
+return Err(ParseError::FalsifiedWhere(4150962867603307131u64));
 }
 };
 let num_lines = {
@@ -36587,7 +36978,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16948595091237008543u64));
+return Err(ParseError::FalsifiedWhere(1180075112413234847u64));
 }
 };
 let num_image_components = {
@@ -36599,7 +36990,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(108256050843388088u64));
+return Err(ParseError::FalsifiedWhere(4914981965961925407u64));
 }
 };
 let image_components = {
@@ -36631,7 +37022,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7834223795690054720u64));
+return Err(ParseError::FalsifiedWhere(4792114144900142999u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36645,7 +37036,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 let marker = {
@@ -36653,7 +37044,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 jpeg_soi { marker }
@@ -36708,7 +37099,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 let marker = {
@@ -36716,7 +37107,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 jpeg_soi { marker }
@@ -36743,7 +37134,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 let marker = {
@@ -36751,7 +37142,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 jpeg_soi { marker }
@@ -36778,7 +37169,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 let marker = {
@@ -36786,7 +37177,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 jpeg_soi { marker }
@@ -36813,7 +37204,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 let marker = {
@@ -36821,7 +37212,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 jpeg_soi { marker }
@@ -36848,7 +37239,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 let marker = {
@@ -36856,7 +37247,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 jpeg_soi { marker }
@@ -36883,7 +37274,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 let marker = {
@@ -36891,7 +37282,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 jpeg_soi { marker }
@@ -36942,7 +37333,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 let marker = {
@@ -36950,7 +37341,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 };
 jpeg_soi { marker }
@@ -37001,7 +37392,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 let marker = {
@@ -37009,7 +37400,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 jpeg_soi { marker }
@@ -37060,7 +37451,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 };
 let marker = {
@@ -37068,7 +37459,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 };
 jpeg_soi { marker }
@@ -37119,7 +37510,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 }
 };
 let marker = {
@@ -37127,7 +37518,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4491050975676636472u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 };
 jpeg_soi { marker }
@@ -37178,7 +37569,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 let marker = {
@@ -37186,7 +37577,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10865781264025109219u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 jpeg_soi { marker }
@@ -37237,7 +37628,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1125515999835788388u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 let marker = {
@@ -37245,7 +37636,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6928743980636918648u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 jpeg_soi { marker }
@@ -37296,7 +37687,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 let marker = {
@@ -37304,7 +37695,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 jpeg_soi { marker }
@@ -37355,7 +37746,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 let marker = {
@@ -37363,7 +37754,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 jpeg_soi { marker }
@@ -37414,7 +37805,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 let marker = {
@@ -37422,7 +37813,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 jpeg_soi { marker }
@@ -37473,7 +37864,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 let marker = {
@@ -37481,7 +37872,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 jpeg_soi { marker }
@@ -37532,7 +37923,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 let marker = {
@@ -37540,7 +37931,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 jpeg_soi { marker }
@@ -37591,7 +37982,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 let marker = {
@@ -37599,7 +37990,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 jpeg_soi { marker }
@@ -37650,7 +38041,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 let marker = {
@@ -37658,7 +38049,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 jpeg_soi { marker }
@@ -37709,7 +38100,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 let marker = {
@@ -37717,7 +38108,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 jpeg_soi { marker }
@@ -37779,7 +38170,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 _input.close_peek_context()?;
@@ -37792,7 +38183,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 accum.push(next_elem)
@@ -37807,7 +38198,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 };
 chars.clone()
@@ -37867,7 +38258,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37923,7 +38314,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 };
 _input.close_peek_context()?;
@@ -37936,7 +38327,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 };
 accum.push(next_elem)
@@ -37951,7 +38342,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 };
 chars.clone()
@@ -38012,7 +38403,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9066809807580136020u64));
+return Err(ParseError::FalsifiedWhere(2157749958308397018u64));
 }
 };
 let density_x = {
@@ -38027,7 +38418,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12347909352078849049u64));
+return Err(ParseError::FalsifiedWhere(7324022130208344343u64));
 }
 };
 let density_y = {
@@ -38042,7 +38433,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10900015085754267678u64));
+return Err(ParseError::FalsifiedWhere(3289883751054141021u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -38104,7 +38495,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5999000939515818447u64));
+return Err(ParseError::FalsifiedWhere(7245983875345631298u64));
 })
 }
 
@@ -38159,7 +38550,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10508718825232435214u64));
+return Err(ParseError::FalsifiedWhere(9556673179043043550u64));
 })
 }
 
@@ -38194,7 +38585,7 @@ jpeg_dqt_data_elements::Shorts(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 })
 }
@@ -38217,7 +38608,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 _input.close_peek_context()?;
@@ -38230,7 +38621,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 };
 accum.push(next_elem)
@@ -38245,7 +38636,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38270,7 +38661,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 _input.close_peek_context()?;
@@ -38283,7 +38674,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 accum.push(next_elem)
@@ -38298,7 +38689,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 chars.clone()
@@ -38389,7 +38780,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 _input.close_peek_context()?;
@@ -38417,7 +38808,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 };
 accum.push(next_elem)
@@ -38450,7 +38841,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 accum.push(next_elem)
@@ -38481,7 +38872,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 };
 _input.close_peek_context()?;
@@ -38494,7 +38885,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 };
 accum.push(next_elem)
@@ -38509,7 +38900,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38534,7 +38925,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 };
 _input.close_peek_context()?;
@@ -38547,7 +38938,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 };
 accum.push(next_elem)
@@ -38562,7 +38953,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
 };
 chars.clone()
@@ -38578,7 +38969,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(16815582401460622228u64));
 }
 };
 let arg1 = {
@@ -38586,7 +38977,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 };
 let arg2 = {
@@ -38594,7 +38985,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(6170312119912404925u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38644,7 +39035,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 }
 }
 },
@@ -38654,7 +39045,7 @@ return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(10784354724006973021u64));
 }
 };
 _input.close_peek_context()?;
@@ -38673,7 +39064,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 })
 }
@@ -38685,7 +39076,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(7814984350356971595u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38709,7 +39100,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(8834940284440365505u64));
 }
 }
 },
@@ -38719,7 +39110,7 @@ return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 }
 };
 _input.close_peek_context()?;
@@ -38736,7 +39127,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 }
 };
@@ -38761,11 +39152,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(15666641356442195125u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38783,7 +39174,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(8003682420837492218u64));
 }
 })
 }
@@ -38795,7 +39186,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(6672851768458061412u64));
 }
 };
 let label = {
@@ -38803,7 +39194,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(5694490278249537684u64));
 }
 };
 let block_size = {
@@ -38811,7 +39202,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(17498679062468273557u64));
 }
 };
 let identifier = {
@@ -38839,7 +39230,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(15004954221525838533u64));
 }
 };
 _input.close_peek_context()?;
@@ -38866,7 +39257,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(9104412661124805519u64));
 }
 };
 let label = {
@@ -38874,7 +39265,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(13731807471966330507u64));
 }
 };
 let comment_data = {
@@ -38893,7 +39284,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8635718010611311692u64));
+return Err(ParseError::ExcludedBranch(13391927636850586680u64));
 }
 };
 _input.close_peek_context()?;
@@ -38920,7 +39311,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(5585407796242218698u64));
 }
 };
 let data = {
@@ -38940,7 +39331,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(7581188615734068888u64));
 })
 }
 
@@ -38951,7 +39342,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(401211890982280023u64));
 }
 };
 let label = {
@@ -38959,7 +39350,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(8351383702383589488u64));
 }
 };
 let block_size = {
@@ -38967,7 +39358,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(16926640000337048185u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38995,7 +39386,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(14305107858950733127u64));
 }
 };
 _input.close_peek_context()?;
@@ -39014,7 +39405,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(14247107068446105269u64));
 }
 })
 }
@@ -39043,7 +39434,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(5774748803588796814u64));
 }
 };
 let label = {
@@ -39051,7 +39442,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10796441316268123402u64));
+return Err(ParseError::ExcludedBranch(12564492979960735543u64));
 }
 };
 let block_size = {
@@ -39059,7 +39450,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11138707079467673507u64));
+return Err(ParseError::ExcludedBranch(2458638837424585123u64));
 }
 };
 let text_grid_left_position = {
@@ -39098,7 +39489,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4276041640044341942u64));
+return Err(ParseError::ExcludedBranch(15528204713822084965u64));
 }
 };
 _input.close_peek_context()?;
@@ -39125,7 +39516,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13415341611905239200u64));
+return Err(ParseError::ExcludedBranch(5036225068787254506u64));
 }
 };
 let image_left_position = {
@@ -39175,7 +39566,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8346764656077042415u64));
+return Err(ParseError::ExcludedBranch(17887022250737672487u64));
 }
 };
 _input.close_peek_context()?;
@@ -39307,55 +39698,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18414062761433945694u64));
+return Err(ParseError::ExcludedBranch(2717347623714797477u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16815582401460622228u64));
+return Err(ParseError::ExcludedBranch(14329490458809437922u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8497430786761265101u64));
+return Err(ParseError::ExcludedBranch(5951796733396995374u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6170312119912404925u64));
+return Err(ParseError::ExcludedBranch(17143332765592749771u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12018148152002987023u64));
+return Err(ParseError::ExcludedBranch(16633361259545357470u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10784354724006973021u64));
+return Err(ParseError::ExcludedBranch(4961333973376272081u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9362083066906141802u64));
+return Err(ParseError::ExcludedBranch(9017777487070956152u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7814984350356971595u64));
+return Err(ParseError::ExcludedBranch(9297096232552071396u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8834940284440365505u64));
+return Err(ParseError::ExcludedBranch(1229687945426775554u64));
 }
 };
 _input.close_peek_context()?;
@@ -39370,7 +39761,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11138532932579103751u64));
+return Err(ParseError::ExcludedBranch(4499173747519010439u64));
 }
 };
 accum.push(next_elem)
@@ -39384,7 +39775,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1640368834587091796u64));
+return Err(ParseError::ExcludedBranch(17513597814045338510u64));
 }
 };
 (arg0, arg1)
@@ -39412,7 +39803,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14970223179097094798u64));
+return Err(ParseError::ExcludedBranch(15210683227347033840u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39445,7 +39836,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15666641356442195125u64));
+return Err(ParseError::FalsifiedWhere(6306371068092156341u64));
 }
 };
 let num_image_components = {
@@ -39457,7 +39848,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8003682420837492218u64));
+return Err(ParseError::FalsifiedWhere(15696920854873538891u64));
 }
 };
 let image_components = {
@@ -39480,7 +39871,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6672851768458061412u64));
+return Err(ParseError::ExcludedBranch(993859343948680132u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39502,7 +39893,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5694490278249537684u64));
+return Err(ParseError::FalsifiedWhere(7852866313283977038u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39516,7 +39907,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17498679062468273557u64));
+return Err(ParseError::ExcludedBranch(17412301555100482773u64));
 }
 };
 let marker = {
@@ -39524,7 +39915,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15004954221525838533u64));
+return Err(ParseError::ExcludedBranch(11771102050369816529u64));
 }
 };
 jpeg_soi { marker }
@@ -39575,7 +39966,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9104412661124805519u64));
+return Err(ParseError::ExcludedBranch(7430518319668180666u64));
 }
 };
 let marker = {
@@ -39583,7 +39974,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13731807471966330507u64));
+return Err(ParseError::ExcludedBranch(3956329350796114455u64));
 }
 };
 jpeg_soi { marker }
@@ -39621,7 +40012,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13391927636850586680u64));
+return Err(ParseError::FalsifiedWhere(6012043787430626716u64));
 }
 };
 let num_image_components = {
@@ -39633,7 +40024,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5585407796242218698u64));
+return Err(ParseError::FalsifiedWhere(1811260380837340660u64));
 }
 };
 let image_components = {
@@ -39655,7 +40046,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7581188615734068888u64));
+return Err(ParseError::ExcludedBranch(13690822156691817534u64));
 }
 };
 let marker = {
@@ -39663,7 +40054,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(401211890982280023u64));
+return Err(ParseError::ExcludedBranch(15351470566288012190u64));
 }
 };
 jpeg_soi { marker }
@@ -39698,7 +40089,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8351383702383589488u64));
+return Err(ParseError::FalsifiedWhere(5106576817547676439u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
-- 
2.43.0


From 7d7305728851c32034107ee8c1afbd98995e93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:25 +0000
Subject: [PATCH 33/46] fix: generated arithmetic that has no result is a parse
 error instead of a panic or a wrapped value

---
 generated/gencode.rs | 2526 +++++++++++++++++++++---------------------
 src/codegen/mod.rs   |   40 +-
 src/codegen/model.rs |    5 +
 src/prelude.rs       |   19 +
 4 files changed, 1321 insertions(+), 1269 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index c2282be..e2a012b 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8858,7 +8858,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5625702265340316943u64));
+return Err(ParseError::ExcludedBranch(7086880279337729577u64));
 }
 };
 _input.close_peek_context()?;
@@ -8871,7 +8871,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4260205764162136487u64));
+return Err(ParseError::ExcludedBranch(7511456693437940214u64));
 }
 };
 accum.push(next_elem)
@@ -8886,7 +8886,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5712308626808297759u64));
+return Err(ParseError::ExcludedBranch(973408085875818710u64));
 }
 };
 let _here = {
@@ -8898,7 +8898,7 @@ here <= r#where
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8638089167112501923u64));
+return Err(ParseError::FalsifiedWhere(15557503981608772456u64));
 }
 };
 let waldo = {
@@ -8975,7 +8975,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1453530207670075215u64));
+return Err(ParseError::ExcludedBranch(2154669163482751322u64));
 }
 };
 _input.close_peek_context()?;
@@ -9121,7 +9121,7 @@ let b = _input.read_byte()?;
 if b == 137 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15915510438164744429u64));
+return Err(ParseError::ExcludedBranch(10263667190582992611u64));
 }
 };
 let ix1 = {
@@ -9129,7 +9129,7 @@ let b = _input.read_byte()?;
 if b == 80 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1542992798780655146u64));
+return Err(ParseError::ExcludedBranch(5482396765248532989u64));
 }
 };
 let ix2 = {
@@ -9137,7 +9137,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7028560493922100069u64));
+return Err(ParseError::ExcludedBranch(12275201028130973875u64));
 }
 };
 let ix3 = {
@@ -9145,7 +9145,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2649783168072194737u64));
+return Err(ParseError::ExcludedBranch(16097120758067046920u64));
 }
 };
 let ix4 = {
@@ -9153,7 +9153,7 @@ let b = _input.read_byte()?;
 if b == 13 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8253205784254894771u64));
+return Err(ParseError::ExcludedBranch(9331632426086095927u64));
 }
 };
 let ix5 = {
@@ -9161,7 +9161,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1225514472166157741u64));
+return Err(ParseError::ExcludedBranch(14959848987246965519u64));
 }
 };
 let ix6 = {
@@ -9169,7 +9169,7 @@ let b = _input.read_byte()?;
 if b == 26 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1224415506115142500u64));
+return Err(ParseError::ExcludedBranch(9092905213558799443u64));
 }
 };
 let ix7 = {
@@ -9177,7 +9177,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16859485491091215361u64));
+return Err(ParseError::ExcludedBranch(17544092807091201u64));
 }
 };
 vec![ix0, ix1, ix2, ix3, ix4, ix5, ix6, ix7]
@@ -9209,7 +9209,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14898840355839773829u64));
+return Err(ParseError::ExcludedBranch(10502127387712395480u64));
 }
 }
 },
@@ -9219,7 +9219,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9453951600195794313u64));
+return Err(ParseError::ExcludedBranch(14454034443522724586u64));
 }
 }
 },
@@ -9233,7 +9233,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10036157788440812915u64));
+return Err(ParseError::ExcludedBranch(5322124757500927073u64));
 }
 }
 },
@@ -9243,7 +9243,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6349531732377484771u64));
+return Err(ParseError::ExcludedBranch(17869550927478639832u64));
 }
 };
 _input.close_peek_context()?;
@@ -9291,7 +9291,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13785646910930464515u64));
+return Err(ParseError::ExcludedBranch(13431462572241034712u64));
 }
 }
 },
@@ -9301,7 +9301,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5323644471994966730u64));
+return Err(ParseError::ExcludedBranch(3433937857563719729u64));
 }
 }
 },
@@ -9311,7 +9311,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13278122992382147879u64));
+return Err(ParseError::ExcludedBranch(13516986665125759073u64));
 }
 }
 },
@@ -9321,7 +9321,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18159646757349796721u64));
+return Err(ParseError::ExcludedBranch(14751251992141172493u64));
 }
 };
 _input.close_peek_context()?;
@@ -9378,7 +9378,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706606u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7124606020426797957u64));
+return Err(ParseError::ExcludedBranch(5733880678136728614u64));
 }
 }
 },
@@ -9388,7 +9388,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847690238u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15116592996336247086u64));
+return Err(ParseError::ExcludedBranch(8997881400116719018u64));
 }
 }
 },
@@ -9398,7 +9398,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10346499338674982396u64));
+return Err(ParseError::ExcludedBranch(13614619987783239962u64));
 }
 }
 },
@@ -9408,7 +9408,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10951432197815892834u64));
+return Err(ParseError::ExcludedBranch(6915530142412472120u64));
 }
 };
 _input.close_peek_context()?;
@@ -9436,7 +9436,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14864597187136898256u64));
+return Err(ParseError::ExcludedBranch(6949960292533894002u64));
 }
 };
 let arg1 = {
@@ -9444,7 +9444,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15238960955167157760u64));
+return Err(ParseError::ExcludedBranch(1347174710810305478u64));
 }
 };
 let arg2 = {
@@ -9452,7 +9452,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17527274083228188873u64));
+return Err(ParseError::ExcludedBranch(8958899994948144829u64));
 }
 };
 let arg3 = {
@@ -9460,7 +9460,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17855530393917176367u64));
+return Err(ParseError::ExcludedBranch(15803403730818557393u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9476,12 +9476,12 @@ let ret = (Decoder_riff_subchunks(_input))?;
 _input.end_slice()?;
 ret
 };
-let pad = if length % 2u32 == 1u32 {
+let pad = if (try_arith!(checked_rem, length, 2u32, 2206609067086327257u64)) == 1u32 {
 let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11054356281452530428u64));
+return Err(ParseError::ExcludedBranch(8390724546948265409u64));
 })
 } else {
 None
@@ -9543,7 +9543,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17406968167054271466u64));
+return Err(ParseError::ExcludedBranch(6347242493551283856u64));
 }
 };
 _input.close_peek_context()?;
@@ -9571,7 +9571,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11100042044514704042u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 };
 accum.push(next_elem)
@@ -9604,7 +9604,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5409189036752851054u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 accum.push(next_elem)
@@ -9731,7 +9731,7 @@ opentype_main_directory::TableDirectory(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4726315105662630465u64));
+return Err(ParseError::FailToken(17324980155911269375u64));
 }
 };
 PResult::Ok(opentype_main { magic, directory })
@@ -9745,7 +9745,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10036638040555853769u64));
+return Err(ParseError::ExcludedBranch(17670535809278048255u64));
 }
 };
 let arg1 = {
@@ -9753,7 +9753,7 @@ let b = _input.read_byte()?;
 if b == 85 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13230337088401352826u64));
+return Err(ParseError::ExcludedBranch(2444204717155307095u64));
 }
 };
 let arg2 = {
@@ -9761,7 +9761,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11460567998186064482u64));
+return Err(ParseError::ExcludedBranch(1278184758971178969u64));
 }
 };
 let arg3 = {
@@ -9769,7 +9769,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6223008304848233301u64));
+return Err(ParseError::ExcludedBranch(4480225125687487743u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9852,7 +9852,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15631554783732883240u64));
+return Err(ParseError::ExcludedBranch(11250208753083412758u64));
 }
 };
 _input.close_peek_context()?;
@@ -9866,7 +9866,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14550754927305275517u64));
+return Err(ParseError::ExcludedBranch(12879845237981630531u64));
 }
 };
 let inner = (Decoder_rle_old_style(_input))?;
@@ -9879,7 +9879,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10197098993763395417u64));
+return Err(ParseError::ExcludedBranch(3426398976290336157u64));
 }
 };
 let inner = (Decoder_rle_new_style(_input))?;
@@ -9887,7 +9887,7 @@ rle_main::new_style(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2391834656526534993u64));
+return Err(ParseError::ExcludedBranch(17349123374714965876u64));
 }
 })
 }
@@ -10014,7 +10014,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10940017698627680568u64));
+return Err(ParseError::ExcludedBranch(1588651938759015246u64));
 }
 };
 _input.close_peek_context()?;
@@ -10028,7 +10028,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9422510723961972169u64));
+return Err(ParseError::ExcludedBranch(2153064741293804702u64));
 }
 };
 (char::from_u32(0u32)).unwrap()
@@ -10039,7 +10039,7 @@ return Err(ParseError::ExcludedBranch(9422510723961972169u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(179268011689651936u64));
+return Err(ParseError::ExcludedBranch(3249387167439447765u64));
 }
 })
 }
@@ -10088,7 +10088,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8772793160380380086u64));
+return Err(ParseError::ExcludedBranch(3270685119814653163u64));
 }
 };
 _input.close_peek_context()?;
@@ -10102,7 +10102,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9665974566873665536u64));
+return Err(ParseError::ExcludedBranch(7744051144774795087u64));
 }
 };
 byte as u32
@@ -10116,7 +10116,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 4294967292u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(374064178837027275u64));
+return Err(ParseError::ExcludedBranch(8700288293163706751u64));
 }
 };
 raw & 31u8
@@ -10153,7 +10153,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9069368457806005425u64));
+return Err(ParseError::ExcludedBranch(11046436797737227751u64));
 }
 };
 _input.close_peek_context()?;
@@ -10168,7 +10168,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(658824046370133753u64));
+return Err(ParseError::ExcludedBranch(16771529512960957239u64));
 }
 };
 raw & 15u8
@@ -10179,7 +10179,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744069414584320u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3725673472712527969u64));
+return Err(ParseError::ExcludedBranch(13846498452079501214u64));
 }
 };
 raw & 63u8
@@ -10195,7 +10195,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 35175782154240u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12728843535195535635u64));
+return Err(ParseError::ExcludedBranch(9798710097031164942u64));
 }
 };
 raw & 15u8
@@ -10212,7 +10212,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15741082764016749161u64));
+return Err(ParseError::ExcludedBranch(9819345728844658158u64));
 }
 };
 raw & 15u8
@@ -10223,7 +10223,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 4294967295u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9967703502401950260u64));
+return Err(ParseError::ExcludedBranch(18279137173405083757u64));
 }
 };
 raw & 63u8
@@ -10239,7 +10239,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8376883036401934317u64));
+return Err(ParseError::ExcludedBranch(14954891776835932150u64));
 }
 };
 raw & 15u8
@@ -10250,7 +10250,7 @@ let arg2 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3179861450314844647u64));
+return Err(ParseError::ExcludedBranch(14984809111992638634u64));
 }
 }
 };
@@ -10279,7 +10279,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5176232487486782188u64));
+return Err(ParseError::ExcludedBranch(11323981950571132721u64));
 }
 };
 _input.close_peek_context()?;
@@ -10294,7 +10294,7 @@ let b = _input.read_byte()?;
 if b == 240 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15080388466336998873u64));
+return Err(ParseError::ExcludedBranch(9342187932533045817u64));
 }
 };
 raw & 7u8
@@ -10305,7 +10305,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709486080u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6070260202873699214u64));
+return Err(ParseError::ExcludedBranch(13404710972790825894u64));
 }
 };
 raw & 63u8
@@ -10322,7 +10322,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8986322043713516692u64));
+return Err(ParseError::ExcludedBranch(2688427941405105545u64));
 }
 };
 raw & 7u8
@@ -10340,7 +10340,7 @@ let b = _input.read_byte()?;
 if b == 244 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11786939113783016634u64));
+return Err(ParseError::ExcludedBranch(6279463968646665849u64));
 }
 };
 raw & 7u8
@@ -10351,7 +10351,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 65535u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3852079030227774582u64));
+return Err(ParseError::ExcludedBranch(10875553067752207222u64));
 }
 };
 raw & 63u8
@@ -10362,7 +10362,7 @@ let arg3 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9220862562374507822u64));
+return Err(ParseError::ExcludedBranch(1179945139148562335u64));
 }
 }
 };
@@ -10373,7 +10373,7 @@ let (x3, x2, x1, x0) = tuple_var;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2605623462625042002u64));
+return Err(ParseError::ExcludedBranch(6821845925776570829u64));
 }
 }
 };
@@ -10387,7 +10387,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18164850183020044607u64));
+return Err(ParseError::ExcludedBranch(15898809900392744567u64));
 }
 };
 PResult::Ok(raw & 63u8)
@@ -10524,7 +10524,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13527164188224560282u64));
+return Err(ParseError::ExcludedBranch(12187643960709778443u64));
 }
 };
 _input.close_peek_context()?;
@@ -10539,7 +10539,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10688770705819276010u64));
+return Err(ParseError::ExcludedBranch(5653230390980289841u64));
 }
 };
 _input.read_byte()?
@@ -10554,7 +10554,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10416240583538343445u64));
+return Err(ParseError::ExcludedBranch(9179996462972575343u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -10570,7 +10570,7 @@ let b = _input.read_byte()?;
 if b == 2 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1457499133218925748u64));
+return Err(ParseError::ExcludedBranch(3675496117133668659u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10586,7 +10586,7 @@ let b = _input.read_byte()?;
 if b == 3 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14215639860155940137u64));
+return Err(ParseError::ExcludedBranch(6495907546257147840u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10602,7 +10602,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5584166819955891466u64));
+return Err(ParseError::ExcludedBranch(8327471529801851430u64));
 }
 };
 let raw = _input.read_byte()?;
@@ -10618,7 +10618,7 @@ let b = _input.read_byte()?;
 if b == 5 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11133239979815295357u64));
+return Err(ParseError::ExcludedBranch(10310785543736156275u64));
 }
 };
 let raw = {
@@ -10637,7 +10637,7 @@ let b = _input.read_byte()?;
 if b == 6 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1275286460638129217u64));
+return Err(ParseError::ExcludedBranch(16594239496794104967u64));
 }
 };
 let raw = {
@@ -10656,7 +10656,7 @@ let b = _input.read_byte()?;
 if b == 7 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(386759067598651566u64));
+return Err(ParseError::ExcludedBranch(16529910322175208638u64));
 }
 };
 let raw = {
@@ -10669,7 +10669,7 @@ numbers_num_value::I64BEValue(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(240888096670347429u64));
+return Err(ParseError::ExcludedBranch(8766708729375264031u64));
 }
 })
 }
@@ -10688,7 +10688,7 @@ matches!(version, 65536u32 | 1330926671u32 | 1953658213u32)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11936787736236307191u64));
+return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
 }
 };
 let num_tables = {
@@ -10733,7 +10733,7 @@ tag == 1953784678u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5215619712890029856u64));
+return Err(ParseError::FalsifiedWhere(163858356033350300u64));
 }
 };
 let major_version = {
@@ -10862,7 +10862,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3167775832820164678u64));
+return Err(ParseError::ExcludedBranch(888161872995526095u64));
 }
 };
 let head = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751474532u32, tables)).copied() {
@@ -10877,7 +10877,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7215050775822222282u64));
+return Err(ParseError::ExcludedBranch(4770836931378141069u64));
 }
 };
 let hhea = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751672161u32, tables)).copied() {
@@ -10892,7 +10892,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3743786174148899814u64));
+return Err(ParseError::ExcludedBranch(9976720501248819272u64));
 }
 };
 let maxp = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1835104368u32, tables)).copied() {
@@ -10907,7 +10907,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12652804269632162478u64));
+return Err(ParseError::ExcludedBranch(3595277668730903043u64));
 }
 };
 let hmtx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1752003704u32, tables)).copied() {
@@ -10922,7 +10922,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18134882366868794706u64));
+return Err(ParseError::ExcludedBranch(5446531490235636452u64));
 }
 };
 let name = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1851878757u32, tables)).copied() {
@@ -10937,7 +10937,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7155653122005708978u64));
+return Err(ParseError::ExcludedBranch(12530712830475607577u64));
 }
 };
 let os2 = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1330851634u32, tables)).copied() {
@@ -10953,7 +10953,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17920584887603040596u64));
+return Err(ParseError::ExcludedBranch(1386817607731947864u64));
 }
 };
 let post = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1886352244u32, tables)).copied() {
@@ -10968,7 +10968,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5673845796627816005u64));
+return Err(ParseError::ExcludedBranch(4795509455376621436u64));
 }
 };
 let cvt = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1668707360u32, tables)).copied() {
@@ -11354,7 +11354,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14591018267292443527u64));
+return Err(ParseError::ExcludedBranch(3923207427992258326u64));
 }
 }.number_of_long_metrics, maxp.num_glyphs))?;
 view_input.end_slice()?;
@@ -11466,7 +11466,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4762692522317026931u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
 inner
 }
 };
@@ -11482,7 +11482,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9630069758457681762u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
 inner
 }
 };
@@ -11503,7 +11503,7 @@ let b = _input.read_byte()?;
 if b == 95 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(908377722732597655u64));
+return Err(ParseError::ExcludedBranch(4063460887563813446u64));
 }
 };
 let arg1 = {
@@ -11511,7 +11511,7 @@ let b = _input.read_byte()?;
 if b == 15 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3203034260088513018u64));
+return Err(ParseError::ExcludedBranch(10243418979491025991u64));
 }
 };
 let arg2 = {
@@ -11519,7 +11519,7 @@ let b = _input.read_byte()?;
 if b == 60 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14677505873656710393u64));
+return Err(ParseError::ExcludedBranch(6726475111737435495u64));
 }
 };
 let arg3 = {
@@ -11527,7 +11527,7 @@ let b = _input.read_byte()?;
 if b == 245 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10102114574336663273u64));
+return Err(ParseError::ExcludedBranch(3702191162545267776u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -11548,7 +11548,7 @@ matches!(x, 16u16..=16384u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4386762582485017400u64));
+return Err(ParseError::FalsifiedWhere(14926982082392674388u64));
 }
 };
 let created = (Decoder222(_input))?;
@@ -11663,7 +11663,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8893850231119365992u64));
+return Err(ParseError::FalsifiedWhere(13281230340934385869u64));
 }
 };
 let glyph_data_format = {
@@ -11678,7 +11678,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7659860344311718435u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -11699,7 +11699,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -11715,7 +11715,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
 inner
 }
 };
@@ -11802,7 +11802,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
 inner
 }
 };
@@ -11818,7 +11818,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
 inner
 }
 };
@@ -11834,7 +11834,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -11850,7 +11850,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -11868,7 +11868,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -11932,7 +11932,7 @@ accum
 };
 let left_side_bearings = {
 let mut accum = Vec::new();
-for _ in 0..try_sub!(num_glyphs, num_long_metrics, 2206609067086327257u64) {
+for _ in 0..try_sub!(num_glyphs, num_long_metrics, 11876854719037224982u64) {
 let next_elem = {
 let raw = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -12319,7 +12319,7 @@ let offsets = match index_to_loc_format {
 0u16 => {
 let inner = {
 let mut accum = Vec::new();
-for _ in 0..succ(num_glyphs) {
+for _ in 0..try_arith!(checked_add, num_glyphs, 1, 18270091135093349626u64) {
 let next_elem = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
@@ -12334,7 +12334,7 @@ opentype_loca_table_offsets::Offsets16(inner)
 1u16 => {
 let inner = {
 let mut accum = Vec::new();
-for _ in 0..succ(num_glyphs) {
+for _ in 0..try_arith!(checked_add, num_glyphs, 1, 6185506036438099345u64) {
 let next_elem = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
@@ -12347,7 +12347,7 @@ opentype_loca_table_offsets::Offsets32(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1338347005175300217u64));
+return Err(ParseError::ExcludedBranch(10057441536650509049u64));
 }
 };
 PResult::Ok(opentype_loca_table { offsets })
@@ -12359,11 +12359,11 @@ let table_view = _input.view();
 let table_scope = table_view;
 let glyphs = match offsets {
 opentype_loca_table_offsets::Offsets16(ref half16s) => {
-let len = pred((half16s.len()) as u32);
+let len = try_arith!(checked_sub, (half16s.len()) as u32, 1, 2404222719611925354u64);
 let mut accum = Vec::new();
 for ix in 0u32..len {
 let next_elem = {
-let (this_offs, next_offs) = ((half16s[ix as usize] as u32) * 2u32, (half16s[(succ(ix)) as usize] as u32) * 2u32);
+let (this_offs, next_offs) = (try_arith!(checked_mul, half16s[ix as usize] as u32, 2u32, 15794382300316794652u64), try_arith!(checked_mul, half16s[(try_arith!(checked_add, ix, 1, 18147521187885925800u64)) as usize] as u32, 2u32, 7364705619221056123u64));
 match next_offs > this_offs {
 true => {
 let inner = {
@@ -12385,11 +12385,11 @@ accum
 },
 
 opentype_loca_table_offsets::Offsets32(ref off32s) => {
-let len = pred((off32s.len()) as u32);
+let len = try_arith!(checked_sub, (off32s.len()) as u32, 1, 17170585774888887431u64);
 let mut accum = Vec::new();
 for ix in 0u32..len {
 let next_elem = {
-let (this_offs, next_offs) = (off32s[ix as usize], off32s[(succ(ix)) as usize]);
+let (this_offs, next_offs) = (off32s[ix as usize], off32s[(try_arith!(checked_add, ix, 1, 13091357170910775568u64)) as usize]);
 match next_offs > this_offs {
 true => {
 let inner = {
@@ -12450,7 +12450,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -12466,7 +12466,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8987822076696059625u64));
+return Err(ParseError::FalsifiedWhere(829032137919921844u64));
 }
 };
 let horiz_axis_offset = {
@@ -12514,7 +12514,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -12560,7 +12560,7 @@ opentype_gdef_table_data::Version1_0
 },
 
 1u16 => {
-return Err(ParseError::FailToken(1977899765720151190u64));
+return Err(ParseError::FailToken(18440348483137307888u64));
 },
 
 2u16 => {
@@ -12643,7 +12643,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -12704,7 +12704,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -12763,7 +12763,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
 inner
 }
 };
@@ -12779,7 +12779,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
 inner
 }
 };
@@ -12795,7 +12795,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
 inner
 }
 };
@@ -12830,7 +12830,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
 inner
 }
 };
@@ -12846,7 +12846,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
 inner
 }
 };
@@ -12862,7 +12862,7 @@ raw > 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10973085168168570837u64));
+return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
 }
 };
 {
@@ -12877,7 +12877,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
 inner
 }
 };
@@ -12897,7 +12897,7 @@ x == 20u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
 inner
 }
 };
@@ -12909,9 +12909,9 @@ let instance_size = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let _axes_length = axis_count * axis_size;
+let _axes_length = try_arith!(checked_mul, axis_count, axis_size, 1548601315919054830u64);
 let _axes = std::marker::PhantomData;
-let offset_instances = offset_axes + _axes_length;
+let offset_instances = try_arith!(checked_add, offset_axes, _axes_length, 9339905250237811640u64);
 let _instances = std::marker::PhantomData;
 PResult::Ok(opentype_fvar_table { table_scope, major_version, minor_version, offset_axes, axis_count, axis_size, instance_count, instance_size, _axes, offset_instances, _instances })
 }
@@ -12932,7 +12932,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
 inner
 }
 };
@@ -12948,7 +12948,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
 inner
 }
 };
@@ -12988,7 +12988,7 @@ let glyph_variation_data_offsets = match flags.is_long_offset {
 true => {
 let inner = {
 let mut accum = Vec::new();
-for _ in 0..succ(glyph_count) {
+for _ in 0..try_arith!(checked_add, glyph_count, 1, 6039633234730737119u64) {
 let next_elem = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
@@ -13003,7 +13003,7 @@ opentype_loca_table_offsets::Offsets32(inner)
 false => {
 let inner = {
 let mut accum = Vec::new();
-for _ in 0..succ(glyph_count) {
+for _ in 0..try_arith!(checked_add, glyph_count, 1, 1654541969082323602u64) {
 let next_elem = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
@@ -13035,7 +13035,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
 inner
 }
 };
@@ -13051,7 +13051,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
 inner
 }
 };
@@ -13106,7 +13106,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
 inner
 }
 };
@@ -13122,7 +13122,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16096650375442290768u64));
 inner
 }
 };
@@ -13138,7 +13138,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14339975513692068616u64));
 inner
 }
 };
@@ -13154,7 +13154,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16299205781335471965u64));
 inner
 }
 };
@@ -13197,7 +13197,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1479153625485860551u64));
 inner
 }
 };
@@ -13221,7 +13221,7 @@ actual == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(973408085875818710u64));
+return Err(ParseError::FalsifiedWhere(12668500753644823654u64));
 }
 };
 PResult::Ok(opentype_svg_table { table_scope, version, svg_document_list })
@@ -13241,7 +13241,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8094248233631264621u64));
 inner
 }
 };
@@ -13276,7 +13276,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1844274570107701975u64));
 inner
 }
 };
@@ -13292,7 +13292,7 @@ matches!(x, 1u16 | 2u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4839194687019048322u64));
 inner
 }
 };
@@ -13345,7 +13345,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7230273548678969972u64));
 inner
 }
 };
@@ -13361,7 +13361,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14903563845775542749u64));
 inner
 }
 };
@@ -13448,7 +13448,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1969670610881234889u64));
 inner
 }
 };
@@ -13464,7 +13464,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9038350950373664822u64));
 inner
 }
 };
@@ -13480,7 +13480,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7281717462557989541u64));
 inner
 }
 };
@@ -13496,7 +13496,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15510952803379905659u64));
 inner
 }
 };
@@ -13514,7 +13514,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14681668243282477517u64));
 inner
 }
 };
@@ -13550,7 +13550,7 @@ accum
 };
 let left_side_bearings = {
 let mut accum = Vec::new();
-for _ in 0..try_sub!(num_glyphs, num_long_metrics, 11876854719037224982u64) {
+for _ in 0..try_sub!(num_glyphs, num_long_metrics, 1272171534487716374u64) {
 let next_elem = {
 let raw = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -13581,7 +13581,7 @@ matches!(x, 1)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6209434968043366837u64));
 inner
 }
 };
@@ -13622,7 +13622,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16474038368490899078u64));
 inner
 }
 };
@@ -13637,12 +13637,12 @@ u32be(x)
 };
 let is_valid = {
 let size = inner;
-size % 4u32 == 0u32
+(try_arith!(checked_rem, size, 4u32, 8399572043096922156u64)) == 0u32
 };
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5322124757500927073u64));
+return Err(ParseError::FalsifiedWhere(7832192330748800109u64));
 }
 };
 let records = {
@@ -13678,7 +13678,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9815657591077818003u64));
 inner
 }
 };
@@ -13698,7 +13698,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13431462572241034712u64));
+return Err(ParseError::FalsifiedWhere(2197379665604321609u64));
 }
 };
 let ratio_range = {
@@ -13822,7 +13822,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16624020278885696461u64));
 inner
 }
 };
@@ -13838,7 +13838,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13516986665125759073u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14485842416732585139u64));
 inner
 }
 };
@@ -13913,7 +13913,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14751251992141172493u64));
+return Err(ParseError::FalsifiedWhere(8179432974518885725u64));
 }
 };
 let data = match format {
@@ -14077,7 +14077,7 @@ opentype_stat_axis_value_table_data::Format4(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5733880678136728614u64));
+return Err(ParseError::ExcludedBranch(5152282179373241998u64));
 }
 };
 PResult::Ok(opentype_stat_axis_value_table { format, data })
@@ -14103,7 +14103,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8997881400116719018u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13780055874544357936u64));
 inner
 }
 };
@@ -14135,7 +14135,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(13614619987783239962u64));
+return Err(ParseError::FailToken(16909208071962620789u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14289,7 +14289,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7933266403838225878u64));
 inner
 }
 };
@@ -14326,7 +14326,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6949960292533894002u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12100308281236296642u64));
 inner
 }
 };
@@ -14536,7 +14536,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1347174710810305478u64));
+return Err(ParseError::ExcludedBranch(9041056097467752267u64));
 }
 };
 let ix1 = {
@@ -14544,7 +14544,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8958899994948144829u64));
+return Err(ParseError::ExcludedBranch(5025197102194587315u64));
 }
 };
 vec![ix0, ix1]
@@ -14618,7 +14618,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15803403730818557393u64));
+return Err(ParseError::ExcludedBranch(3810055094392728880u64));
 }
 };
 _input.close_peek_context()?;
@@ -14631,7 +14631,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8390724546948265409u64));
+return Err(ParseError::ExcludedBranch(15252450768049745444u64));
 }
 };
 accum.push(next_elem)
@@ -14646,7 +14646,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6347242493551283856u64));
+return Err(ParseError::ExcludedBranch(5599331855309773603u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14671,7 +14671,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4251627061094365437u64));
+return Err(ParseError::ExcludedBranch(16437491640759399344u64));
 }
 };
 _input.close_peek_context()?;
@@ -14684,7 +14684,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11915580511665106140u64));
+return Err(ParseError::ExcludedBranch(2988545765690796708u64));
 }
 };
 accum.push(next_elem)
@@ -14699,7 +14699,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17324980155911269375u64));
+return Err(ParseError::ExcludedBranch(6215067399528787845u64));
 }
 };
 chars.clone()
@@ -14760,7 +14760,7 @@ deflate_uncompressed_codes_values::literal(b) => {
 
 deflate_uncompressed_codes_values::reference(r) => {
 {
-let ix = (try_sub!((buffer.len()) as u32, r.distance as u32, 18270091135093349626u64)) as usize;
+let ix = (try_sub!((buffer.len()) as u32, r.distance as u32, 7000022209644146403u64)) as usize;
 (slice_ext(buffer, ix..ix + ((r.length as u32) as usize))).to_vec()
 }
 }
@@ -14806,7 +14806,7 @@ deflate_block_data::dynamic_huffman(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17670535809278048255u64));
+return Err(ParseError::ExcludedBranch(17176374570344757031u64));
 }
 };
 PResult::Ok(deflate_block { r#final, r#type, data })
@@ -14827,12 +14827,12 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 let inner = nlen;
 let is_valid = {
 let nlen = inner;
-nlen == (try_sub!(65535u16, len, 1278184758971178969u64))
+nlen == (try_sub!(65535u16, len, 7979287392867129207u64))
 };
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4480225125687487743u64));
+return Err(ParseError::FalsifiedWhere(3653195934333285574u64));
 }
 };
 let bytes = {
@@ -14861,7 +14861,7 @@ let code = (format(_input))?;
 let extra = match code {
 257u16 => {
 let length_extra_bits = 0u8;
-let length = 3u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 3u16, length_extra_bits as u16, 8451221290566481190u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -14879,7 +14879,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 
 258u16 => {
 let length_extra_bits = 0u8;
-let length = 4u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 4u16, length_extra_bits as u16, 7283163102885684771u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -14897,7 +14897,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 
 259u16 => {
 let length_extra_bits = 0u8;
-let length = 5u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 5u16, length_extra_bits as u16, 5100077783044507986u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -14915,7 +14915,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 
 260u16 => {
 let length_extra_bits = 0u8;
-let length = 6u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 6u16, length_extra_bits as u16, 16200207902741715318u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -14933,7 +14933,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 
 261u16 => {
 let length_extra_bits = 0u8;
-let length = 7u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 7u16, length_extra_bits as u16, 5576343694315527798u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -14951,7 +14951,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 
 262u16 => {
 let length_extra_bits = 0u8;
-let length = 8u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 8u16, length_extra_bits as u16, 4672672775256824980u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -14969,7 +14969,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 
 263u16 => {
 let length_extra_bits = 0u8;
-let length = 9u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 9u16, length_extra_bits as u16, 98102193810481173u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -14987,7 +14987,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 
 264u16 => {
 let length_extra_bits = 0u8;
-let length = 10u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 10u16, length_extra_bits as u16, 734991270787736827u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15008,7 +15008,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?,);
 bits.0
 };
-let length = 11u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 11u16, length_extra_bits as u16, 18167425999583150549u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15029,7 +15029,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?,);
 bits.0
 };
-let length = 13u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 13u16, length_extra_bits as u16, 1644793874183523166u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15050,7 +15050,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?,);
 bits.0
 };
-let length = 15u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 15u16, length_extra_bits as u16, 16396082708135795071u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15071,7 +15071,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?,);
 bits.0
 };
-let length = 17u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 17u16, length_extra_bits as u16, 5546123200965512193u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15092,7 +15092,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8
 };
-let length = 19u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 19u16, length_extra_bits as u16, 9403121491749669432u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15113,7 +15113,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8
 };
-let length = 23u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 23u16, length_extra_bits as u16, 7981520858864097140u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15134,7 +15134,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8
 };
-let length = 27u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 27u16, length_extra_bits as u16, 17948395312093823900u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15155,7 +15155,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8
 };
-let length = 31u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 31u16, length_extra_bits as u16, 7370180348639650351u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15176,7 +15176,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8
 };
-let length = 35u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 35u16, length_extra_bits as u16, 9851243859021733611u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15197,7 +15197,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8
 };
-let length = 43u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 43u16, length_extra_bits as u16, 5357406925723651718u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15218,7 +15218,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8
 };
-let length = 51u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 51u16, length_extra_bits as u16, 12318721104400761032u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15239,7 +15239,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8
 };
-let length = 59u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 59u16, length_extra_bits as u16, 3320665455366264189u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15260,7 +15260,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
 };
-let length = 67u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 67u16, length_extra_bits as u16, 3673300442962989464u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15281,7 +15281,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
 };
-let length = 83u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 83u16, length_extra_bits as u16, 8970999014112821604u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15302,7 +15302,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
 };
-let length = 99u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 99u16, length_extra_bits as u16, 17089130856162883194u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15323,7 +15323,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
 };
-let length = 115u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 115u16, length_extra_bits as u16, 13537165373980795457u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15344,7 +15344,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
 };
-let length = 131u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 131u16, length_extra_bits as u16, 11669649807369914251u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15365,7 +15365,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
 };
-let length = 163u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 163u16, length_extra_bits as u16, 8880661182590738257u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15386,7 +15386,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
 };
-let length = 195u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 195u16, length_extra_bits as u16, 691490157317212239u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15407,7 +15407,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
 };
-let length = 227u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 227u16, length_extra_bits as u16, 10719628102612994677u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15425,7 +15425,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 
 285u16 => {
 let length_extra_bits = 0u8;
-let length = 258u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 258u16, length_extra_bits as u16, 13685962128001446815u64);
 let distance_code = {
 let bits = {
 let mut accum = Vec::new();
@@ -15479,7 +15479,7 @@ Some(ref rec) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6185506036438099345u64));
+return Err(ParseError::ExcludedBranch(7538966935051243003u64));
 }
 }
 },
@@ -15511,7 +15511,7 @@ bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
 };
 let code_length_alphabet_code_lengths = {
 let mut accum = Vec::new();
-for _ in 0..hclen + 4u8 {
+for _ in 0..try_arith!(checked_add, hclen, 4u8, 4867798537713738914u64) {
 let next_elem = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8
@@ -15525,23 +15525,23 @@ let literal_length_distance_alphabet_code_lengths_value = (try_fold_map_curried(
 let (last_symbol, cl_code_extra) = tuple_var;
 match cl_code_extra.code as u8 {
 16u8 => {
-(last_symbol, dup32((cl_code_extra.extra + 3u8) as u32, match last_symbol {
+(last_symbol, dup32((try_arith!(checked_add, cl_code_extra.extra, 3u8, 11266387855511437693u64)) as u32, match last_symbol {
 Some(x) => {
 x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15794382300316794652u64));
+return Err(ParseError::ExcludedBranch(11452033436843896773u64));
 }
 }))
 },
 
 17u8 => {
-(Some(0u8), dup32((cl_code_extra.extra + 3u8) as u32, 0u8))
+(Some(0u8), dup32((try_arith!(checked_add, cl_code_extra.extra, 3u8, 8138544351856664662u64)) as u32, 0u8))
 },
 
 18u8 => {
-(Some(0u8), dup32((cl_code_extra.extra + 11u8) as u32, 0u8))
+(Some(0u8), dup32((try_arith!(checked_add, cl_code_extra.extra, 11u8, 12696272221194189133u64)) as u32, 0u8))
 },
 
 v => {
@@ -15553,21 +15553,21 @@ v => {
 let inner = (literal_length_distance_alphabet_code_lengths_value.len()) as u32;
 let is_valid = {
 let total = inner;
-total == ((hlit + hdist) as u32) + 258u32
+total == (try_arith!(checked_add, (try_arith!(checked_add, hlit, hdist, 8898504689444561451u64)) as u32, 258u32, 441240706992005484u64))
 };
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12879845237981630531u64));
+return Err(ParseError::FalsifiedWhere(3950014938140253048u64));
 }
 };
 let literal_length_alphabet_code_lengths_value = {
 let ix = 0u32 as usize;
-Vec::from(&literal_length_distance_alphabet_code_lengths_value[ix..(ix + (((hlit as u32) + 257u32) as usize))])
+Vec::from(&literal_length_distance_alphabet_code_lengths_value[ix..(ix + ((try_arith!(checked_add, hlit as u32, 257u32, 3995820927126919547u64)) as usize))])
 };
 let distance_alphabet_code_lengths_value = {
-let ix = ((hlit as u32) + 257u32) as usize;
-Vec::from(&literal_length_distance_alphabet_code_lengths_value[ix..(ix + (((hdist as u32) + 1u32) as usize))])
+let ix = (try_arith!(checked_add, hlit as u32, 257u32, 9149418055219508197u64)) as usize;
+Vec::from(&literal_length_distance_alphabet_code_lengths_value[ix..(ix + ((try_arith!(checked_add, hdist as u32, 1u32, 8000269442706245049u64)) as usize))])
 };
 let codes = {
 let distance_alphabet_format = parse_huffman(distance_alphabet_code_lengths_value.clone(), None);
@@ -15579,7 +15579,7 @@ let code = (literal_length_alphabet_format(_input))?;
 let extra = match code {
 257u16 => {
 let length_extra_bits = 0u8;
-let length = 3u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 3u16, length_extra_bits as u16, 4100106362216887809u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15587,7 +15587,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 
 258u16 => {
 let length_extra_bits = 0u8;
-let length = 4u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 4u16, length_extra_bits as u16, 3198904588321530108u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15595,7 +15595,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 
 259u16 => {
 let length_extra_bits = 0u8;
-let length = 5u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 5u16, length_extra_bits as u16, 8674930063339641954u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15603,7 +15603,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 
 260u16 => {
 let length_extra_bits = 0u8;
-let length = 6u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 6u16, length_extra_bits as u16, 15244023661753025012u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15611,7 +15611,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 
 261u16 => {
 let length_extra_bits = 0u8;
-let length = 7u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 7u16, length_extra_bits as u16, 11029695522295027332u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15619,7 +15619,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 
 262u16 => {
 let length_extra_bits = 0u8;
-let length = 8u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 8u16, length_extra_bits as u16, 1560031033762626303u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15627,7 +15627,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 
 263u16 => {
 let length_extra_bits = 0u8;
-let length = 9u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 9u16, length_extra_bits as u16, 2452372056966650770u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15635,7 +15635,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 
 264u16 => {
 let length_extra_bits = 0u8;
-let length = 10u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 10u16, length_extra_bits as u16, 7866350329714952610u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15646,7 +15646,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?,);
 bits.0
 };
-let length = 11u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 11u16, length_extra_bits as u16, 12954594173805448799u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15657,7 +15657,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?,);
 bits.0
 };
-let length = 13u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 13u16, length_extra_bits as u16, 9573183374517388194u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15668,7 +15668,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?,);
 bits.0
 };
-let length = 15u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 15u16, length_extra_bits as u16, 15327783809571612236u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15679,7 +15679,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?,);
 bits.0
 };
-let length = 17u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 17u16, length_extra_bits as u16, 9684775926499943714u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15690,7 +15690,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8
 };
-let length = 19u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 19u16, length_extra_bits as u16, 5912167672739605892u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15701,7 +15701,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8
 };
-let length = 23u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 23u16, length_extra_bits as u16, 1998097826508262195u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15712,7 +15712,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8
 };
-let length = 27u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 27u16, length_extra_bits as u16, 16370266426490485062u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15723,7 +15723,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8
 };
-let length = 31u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 31u16, length_extra_bits as u16, 14923902544344582218u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15734,7 +15734,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8
 };
-let length = 35u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 35u16, length_extra_bits as u16, 9033025935232855564u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15745,7 +15745,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8
 };
-let length = 43u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 43u16, length_extra_bits as u16, 6569230515699692699u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15756,7 +15756,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8
 };
-let length = 51u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 51u16, length_extra_bits as u16, 15682767706885925172u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15767,7 +15767,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8
 };
-let length = 59u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 59u16, length_extra_bits as u16, 2946338368865429585u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15778,7 +15778,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
 };
-let length = 67u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 67u16, length_extra_bits as u16, 466150863659326234u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15789,7 +15789,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
 };
-let length = 83u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 83u16, length_extra_bits as u16, 11988854374464943326u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15800,7 +15800,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
 };
-let length = 99u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 99u16, length_extra_bits as u16, 7620281735474506525u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15811,7 +15811,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
 };
-let length = 115u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 115u16, length_extra_bits as u16, 11599300513837427027u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15822,7 +15822,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
 };
-let length = 131u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 131u16, length_extra_bits as u16, 950046280632689001u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15833,7 +15833,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
 };
-let length = 163u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 163u16, length_extra_bits as u16, 5625702265340316943u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15844,7 +15844,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
 };
-let length = 195u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 195u16, length_extra_bits as u16, 4260205764162136487u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15855,7 +15855,7 @@ let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
 };
-let length = 227u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 227u16, length_extra_bits as u16, 5712308626808297759u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15863,7 +15863,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 
 285u16 => {
 let length_extra_bits = 0u8;
-let length = 258u16 + (length_extra_bits as u16);
+let length = try_arith!(checked_add, 258u16, length_extra_bits as u16, 8638089167112501923u64);
 let distance_code = (distance_alphabet_format(_input))?;
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code))?;
 Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15907,7 +15907,7 @@ Some(ref rec) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18147521187885925800u64));
+return Err(ParseError::ExcludedBranch(1453530207670075215u64));
 }
 }
 },
@@ -15960,30 +15960,30 @@ let y = &accum;
 let (last_symbol, cl_code_extra) = tuple_var;
 match cl_code_extra.code as u8 {
 16u8 => {
-(last_symbol, dup32((cl_code_extra.extra + 3u8) as u32, match last_symbol {
+(last_symbol, dup32((try_arith!(checked_add, cl_code_extra.extra, 3u8, 2908689796368760670u64)) as u32, match last_symbol {
 Some(x) => {
 x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11250208753083412758u64));
+return Err(ParseError::ExcludedBranch(4316175446384649956u64));
 }
 }))
 },
 
 17u8 => {
-(Some(0u8), dup32((cl_code_extra.extra + 3u8) as u32, 0u8))
+(Some(0u8), dup32((try_arith!(checked_add, cl_code_extra.extra, 3u8, 13311790038092155306u64)) as u32, 0u8))
 },
 
 18u8 => {
-(Some(0u8), dup32((cl_code_extra.extra + 11u8) as u32, 0u8))
+(Some(0u8), dup32((try_arith!(checked_add, cl_code_extra.extra, 11u8, 4598583460226006268u64)) as u32, 0u8))
 },
 
 v => {
 (Some(v), [v].to_vec())
 }
 }
-})))?.len()) as u32) >= ((hlit + hdist) as u32) + 258u32
+})))?.len()) as u32) >= (try_arith!(checked_add, (try_arith!(checked_add, hlit, hdist, 275550262640764009u64)) as u32, 258u32, 11490274700962832028u64))
 };
 if tmp_cond {
 break
@@ -16118,11 +16118,11 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(17349123374714965876u64));
+return Err(ParseError::FailToken(15680765559661576738u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2153064741293804702u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 })
 }
@@ -16200,10 +16200,10 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1588651938759015246u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
-let distance = start + distance_extra_bits;
+let distance = try_arith!(checked_add, start, distance_extra_bits, 15915510438164744429u64);
 PResult::Ok(deflate_distance_record0 { distance_extra_bits, distance })
 }
 
@@ -16253,7 +16253,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3249387167439447765u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18399269270080151498u64));
 inner
 }
 };
@@ -16319,7 +16319,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
+return Err(ParseError::FalsifiedWhere(30874382969105279u64));
 }
 };
 let variation_regions = {
@@ -16418,7 +16418,7 @@ accum
 };
 let delta_data_half_word = {
 let mut accum = Vec::new();
-for _ in 0..try_sub!(region_index_count, word_delta_count.word_count, 7364705619221056123u64) {
+for _ in 0..try_sub!(region_index_count, word_delta_count.word_count, 1542992798780655146u64) {
 let next_elem = {
 let raw = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -16460,7 +16460,7 @@ accum
 };
 let delta_data_half_word = {
 let mut accum = Vec::new();
-for _ in 0..try_sub!(region_index_count, word_delta_count.word_count, 2404222719611925354u64) {
+for _ in 0..try_sub!(region_index_count, word_delta_count.word_count, 7028560493922100069u64) {
 let next_elem = {
 let raw = _input.read_byte()?;
 raw as i8
@@ -16492,13 +16492,13 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8700288293163706751u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9791114990321288281u64));
 inner
 }
 };
 let _entry_format = (Decoder_opentype_var_dsim_entry_format(_input))?;
-let entry_size = succ(_entry_format.map_entry_size);
-let inner_index_bits = succ(_entry_format.inner_index_bit_count);
+let entry_size = try_arith!(checked_add, _entry_format.map_entry_size, 1, 2649783168072194737u64);
+let inner_index_bits = try_arith!(checked_add, _entry_format.inner_index_bit_count, 1, 8253205784254894771u64);
 let map_count = match format {
 0u8 => {
 let val = {
@@ -16514,12 +16514,12 @@ u32be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16771529512960957239u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 let map_data = {
 let here_view = _input.view();
-here_view.read_len((map_count * (entry_size as u32)) as usize)?
+here_view.read_len((try_arith!(checked_mul, map_count, entry_size as u32, 1225514472166157741u64)) as usize)?
 };
 PResult::Ok(opentype_var_delta_set_index_map { format, entry_size, inner_index_bits, map_count, map_data })
 }
@@ -16576,7 +16576,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13846498452079501214u64));
+return Err(ParseError::FalsifiedWhere(2481175643332430741u64));
 }
 };
 let tuple_variation_headers = {
@@ -16655,7 +16655,7 @@ x.clone()
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13091357170910775568u64));
+return Err(ParseError::ExcludedBranch(16859485491091215361u64));
 }
 }
 }
@@ -16666,7 +16666,7 @@ loop {
 {
 let tmp_cond = {
 let totlen = acc;
-totlen >= point_count * 2u16
+totlen >= (try_arith!(checked_mul, point_count, 2u16, 4338497647520366709u64))
 };
 if tmp_cond {
 break
@@ -16682,7 +16682,7 @@ let delta_run_count = _packed_bits & 63u8;
 opentype_gvar_serialized_data_per_tuple_variation_data_x_and_y_coordinate_deltas_control { deltas_are_zero, deltas_are_words, delta_run_count }
 };
 let deltas = {
-let run_length = succ(control.delta_run_count);
+let run_length = try_arith!(checked_add, control.delta_run_count, 1, 1224415506115142500u64);
 match control.deltas_are_zero {
 true => {
 let inner = run_length;
@@ -16732,7 +16732,7 @@ opentype_gvar_serialized_data_per_tuple_variation_data_x_and_y_coordinate_deltas
 acc = {
 let acc = acc;
 let run = elem.clone();
-acc + (succ(run.control.delta_run_count as u16))
+try_arith!(checked_add, acc, try_arith!(checked_add, run.control.delta_run_count as u16, 1, 8971553008180040990u64), 1310624491311340594u64)
 };
 seq.push(elem)
 };
@@ -16769,7 +16769,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14954891776835932150u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 _input.close_peek_context()?;
@@ -16783,7 +16783,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9798710097031164942u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 (0u16, [].to_vec())
@@ -16795,7 +16795,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9819345728844658158u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16807,7 +16807,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18279137173405083757u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16815,7 +16815,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11046436797737227751u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 })
 }
@@ -16839,7 +16839,7 @@ let elem = (Decoder_opentype_var_packed_point_numbers_runs(_input))?;
 acc = {
 let acc = acc;
 let run = elem.clone();
-acc + (succ(run.control.point_run_count as u16))
+try_arith!(checked_add, acc, try_arith!(checked_add, run.control.point_run_count as u16, 1, 14949659785259585833u64), 562280208679883345u64)
 };
 seq.push(elem)
 };
@@ -16855,7 +16855,7 @@ let point_run_count = _packed_bits & 127u8;
 opentype_var_packed_point_numbers_run_control { points_are_words, point_run_count }
 };
 let points = {
-let run_length = succ(control.point_run_count);
+let run_length = try_arith!(checked_add, control.point_run_count, 1, 14898840355839773829u64);
 match control.points_are_words {
 true => {
 let inner = {
@@ -16945,12 +16945,12 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1426091679331900812u64));
 inner
 }
 };
 let coordinates = (Decoder_opentype_fvar_user_tuple(_input, axis_count))?;
-let postscript_nameid = if instance_size % 4u16 == 2u16 {
+let postscript_nameid = if (try_arith!(checked_rem, instance_size, 4u16, 9453951600195794313u64)) == 2u16 {
 let x = (_input.read_byte()?, _input.read_byte()?);
 Some(u16be(x))
 } else {
@@ -17094,7 +17094,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9342187932533045817u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5775567136742802567u64));
 inner
 }
 };
@@ -17110,7 +17110,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12616585043782016404u64));
 inner
 }
 };
@@ -17166,7 +17166,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13260893460097040029u64));
 inner
 }
 };
@@ -17182,7 +17182,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6279463968646665849u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5931637197703965434u64));
 inner
 }
 };
@@ -17324,7 +17324,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(144820728017547457u64));
 }
 };
 let table_scope = table_view;
@@ -17340,7 +17340,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11323981950571132721u64));
+return Err(ParseError::FalsifiedWhere(17376845638706524656u64));
 }
 };
 let extension_offset = {
@@ -17393,11 +17393,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(9452754313802575046u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(15362228896620571409u64));
 }
 })
 }
@@ -17421,7 +17421,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6821845925776570829u64));
+return Err(ParseError::FailToken(17715157964684782708u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17468,7 +17468,7 @@ opentype_layout_multiple_subst_subst::Format1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15898809900392744567u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 }
 };
 PResult::Ok(opentype_layout_multiple_subst { table_scope, subst_format, coverage, subst })
@@ -17490,7 +17490,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
 }
 };
 let coverage = {
@@ -17539,7 +17539,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
+return Err(ParseError::FalsifiedWhere(6611121695530188940u64));
 }
 };
 let coverage = {
@@ -17597,7 +17597,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3675496117133668659u64));
+return Err(ParseError::FailToken(9660375186237087060u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17628,7 +17628,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6495907546257147840u64));
+return Err(ParseError::FailToken(11684704871632490773u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17649,7 +17649,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
+return Err(ParseError::FalsifiedWhere(17081364943144677526u64));
 }
 };
 let table_scope = table_view;
@@ -17780,7 +17780,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10310785543736156275u64));
+return Err(ParseError::FailToken(9710347097769530785u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -18028,7 +18028,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16594239496794104967u64));
+return Err(ParseError::FailToken(2466404913032252300u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18083,7 +18083,7 @@ u16be(x)
 };
 let input_sequence = {
 let mut accum = Vec::new();
-for _ in 0..pred(input_glyph_count) {
+for _ in 0..try_arith!(checked_sub, input_glyph_count, 1, 10036157788440812915u64) {
 let next_elem = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
@@ -18270,7 +18270,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16529910322175208638u64));
+return Err(ParseError::FalsifiedWhere(4149374297771033461u64));
 }
 };
 let seq_lookup_count = {
@@ -18279,7 +18279,7 @@ u16be(x)
 };
 let input_sequence = {
 let mut accum = Vec::new();
-for _ in 0..pred(glyph_count) {
+for _ in 0..try_arith!(checked_sub, glyph_count, 1, 6349531732377484771u64) {
 let next_elem = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
@@ -18337,7 +18337,7 @@ u16be(x)
 };
 let component_glyph_ids = {
 let mut accum = Vec::new();
-for _ in 0..pred(component_count) {
+for _ in 0..try_arith!(checked_sub, component_count, 1, 13785646910930464515u64) {
 let next_elem = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
@@ -18508,7 +18508,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12187643960709778443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5869833854865239916u64));
 inner
 }
 };
@@ -18657,7 +18657,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8766708729375264031u64));
+return Err(ParseError::FalsifiedWhere(13372240079418200167u64));
 }
 };
 let table_scope = table_view;
@@ -18673,7 +18673,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
+return Err(ParseError::FalsifiedWhere(10504805981668764726u64));
 }
 };
 let extension_offset = {
@@ -18731,11 +18731,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(163858356033350300u64));
+return Err(ParseError::FailToken(5250529337043320049u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(888161872995526095u64));
+return Err(ParseError::FailToken(4159150678276994707u64));
 }
 })
 }
@@ -18759,7 +18759,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4770836931378141069u64));
+return Err(ParseError::FailToken(5633181162991720115u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18784,7 +18784,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9976720501248819272u64));
+return Err(ParseError::FailToken(13699185545200670755u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18805,7 +18805,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(1705816027536538342u64));
 }
 };
 let table_scope = table_view;
@@ -18847,7 +18847,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
+return Err(ParseError::FalsifiedWhere(5442671660922928935u64));
 }
 };
 let table_scope = table_view;
@@ -18906,7 +18906,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(15425278341212694869u64));
 }
 };
 let mark_coverage = {
@@ -18963,7 +18963,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1386817607731947864u64));
+return Err(ParseError::FalsifiedWhere(17519877619184542224u64));
 }
 };
 let table_scope = table_view;
@@ -19121,7 +19121,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4795509455376621436u64));
+return Err(ParseError::FailToken(2881491179107816928u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19201,37 +19201,37 @@ let delta_values = {
 let mut accum = Vec::new();
 for _ in 0..match delta_format {
 1u16 => {
-match ((succ(try_sub!(end_size, start_size, 17170585774888887431u64))) / 8u16) * 8u16 < (succ(try_sub!(end_size, start_size, 1548601315919054830u64))) {
+match (try_arith!(checked_mul, try_arith!(checked_div, try_arith!(checked_add, try_sub!(end_size, start_size, 5323644471994966730u64), 1, 13278122992382147879u64), 8u16, 18159646757349796721u64), 8u16, 7124606020426797957u64)) < (try_arith!(checked_add, try_sub!(end_size, start_size, 15116592996336247086u64), 1, 10346499338674982396u64)) {
 true => {
-succ((succ(try_sub!(end_size, start_size, 9339905250237811640u64))) / 8u16)
+try_arith!(checked_add, try_arith!(checked_div, try_arith!(checked_add, try_sub!(end_size, start_size, 10951432197815892834u64), 1, 14864597187136898256u64), 8u16, 15238960955167157760u64), 1, 17527274083228188873u64)
 },
 
 false => {
-(succ(try_sub!(end_size, start_size, 6039633234730737119u64))) / 8u16
+try_arith!(checked_div, try_arith!(checked_add, try_sub!(end_size, start_size, 17855530393917176367u64), 1, 11054356281452530428u64), 8u16, 17406968167054271466u64)
 }
 }
 },
 
 2u16 => {
-match ((succ(try_sub!(end_size, start_size, 1654541969082323602u64))) / 4u16) * 4u16 < (succ(try_sub!(end_size, start_size, 1272171534487716374u64))) {
+match (try_arith!(checked_mul, try_arith!(checked_div, try_arith!(checked_add, try_sub!(end_size, start_size, 11100042044514704042u64), 1, 5409189036752851054u64), 4u16, 4726315105662630465u64), 4u16, 10036638040555853769u64)) < (try_arith!(checked_add, try_sub!(end_size, start_size, 13230337088401352826u64), 1, 11460567998186064482u64)) {
 true => {
-succ((succ(try_sub!(end_size, start_size, 7000022209644146403u64))) / 4u16)
+try_arith!(checked_add, try_arith!(checked_div, try_arith!(checked_add, try_sub!(end_size, start_size, 6223008304848233301u64), 1, 14550754927305275517u64), 4u16, 10197098993763395417u64), 1, 15631554783732883240u64)
 },
 
 false => {
-(succ(try_sub!(end_size, start_size, 8451221290566481190u64))) / 4u16
+try_arith!(checked_div, try_arith!(checked_add, try_sub!(end_size, start_size, 2391834656526534993u64), 1, 9422510723961972169u64), 4u16, 10940017698627680568u64)
 }
 }
 },
 
 3u16 => {
-match ((succ(try_sub!(end_size, start_size, 7283163102885684771u64))) / 2u16) * 2u16 < (succ(try_sub!(end_size, start_size, 5100077783044507986u64))) {
+match (try_arith!(checked_mul, try_arith!(checked_div, try_arith!(checked_add, try_sub!(end_size, start_size, 179268011689651936u64), 1, 9665974566873665536u64), 2u16, 374064178837027275u64), 2u16, 658824046370133753u64)) < (try_arith!(checked_add, try_sub!(end_size, start_size, 3725673472712527969u64), 1, 12728843535195535635u64)) {
 true => {
-succ((succ(try_sub!(end_size, start_size, 16200207902741715318u64))) / 2u16)
+try_arith!(checked_add, try_arith!(checked_div, try_arith!(checked_add, try_sub!(end_size, start_size, 15741082764016749161u64), 1, 9967703502401950260u64), 2u16, 8376883036401934317u64), 1, 9069368457806005425u64)
 },
 
 false => {
-(succ(try_sub!(end_size, start_size, 5576343694315527798u64))) / 2u16
+try_arith!(checked_div, try_arith!(checked_add, try_sub!(end_size, start_size, 3179861450314844647u64), 1, 15080388466336998873u64), 2u16, 6070260202873699214u64)
 }
 }
 },
@@ -19269,7 +19269,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3923207427992258326u64));
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 };
 let arg1 = {
@@ -19277,7 +19277,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5174369311102857850u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 };
 (arg0, arg1)
@@ -20215,7 +20215,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977196682923428575u64));
 inner
 }
 };
@@ -20306,7 +20306,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4063460887563813446u64));
+return Err(ParseError::FailToken(14908034280634314212u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20555,7 +20555,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10243418979491025991u64));
+return Err(ParseError::FailToken(3857251694269754536u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20619,7 +20619,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6726475111737435495u64));
+return Err(ParseError::FailToken(5041932778480497827u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -20710,7 +20710,7 @@ accum.push(next_elem)
 };
 accum
 };
-let number_of_coordinates = succ(end_points_of_contour[(pred((end_points_of_contour.len()) as u32)) as usize]);
+let number_of_coordinates = try_arith!(checked_add, end_points_of_contour[(try_arith!(checked_sub, (end_points_of_contour.len()) as u32, 1, 8986322043713516692u64)) as usize], 1, 11786939113783016634u64);
 let flags = {
 let arr_flags = {
 let tuple_var = {
@@ -20744,7 +20744,7 @@ opentype_glyf_simple_flags_lhs { repeats, field_set }
 acc = {
 let acc = acc;
 let flags = elem;
-acc + (succ(flags.repeats as u16))
+try_arith!(checked_add, acc, try_arith!(checked_add, flags.repeats as u16, 1, 15541745679144160988u64), 16366772103869684910u64)
 };
 seq.push(elem)
 };
@@ -20755,7 +20755,7 @@ let (_len, flags) = tuple_var;
 flags
 }
 };
-(try_flat_map_vec(arr_flags.iter().cloned(), |packed: opentype_glyf_simple_flags_lhs| PResult::Ok(dup32((packed.repeats as u32) + 1u32, packed.field_set))))?
+(try_flat_map_vec(arr_flags.iter().cloned(), |packed: opentype_glyf_simple_flags_lhs| PResult::Ok(dup32(try_arith!(checked_add, packed.repeats as u32, 1u32, 15047091743774256727u64), packed.field_set))))?
 };
 let x_coordinates = {
 let mut accum = Vec::new();
@@ -20847,7 +20847,7 @@ let tmp_cond = {
 let seq = &seq;
 match match ((seq.len()) as u32) != 0u32 {
 true => {
-Some(seq[(pred((seq.len()) as u32)) as usize])
+Some(seq[(try_arith!(checked_sub, (seq.len()) as u32, 1, 4693381172248071257u64)) as usize])
 },
 
 false => {
@@ -21122,7 +21122,7 @@ accum
 };
 let string_data = {
 let mut accum = Vec::new();
-for _ in 0..match (succ((try_fold_left_curried(glyph_name_index.iter().cloned(), 0u16, |tuple_var: (u16, u16)| PResult::Ok({
+for _ in 0..match (try_arith!(checked_add, (try_fold_left_curried(glyph_name_index.iter().cloned(), 0u16, |tuple_var: (u16, u16)| PResult::Ok({
 let (acc, x) = tuple_var;
 match acc >= x {
 true => {
@@ -21133,13 +21133,13 @@ false => {
 x
 }
 }
-})))?)) <= 258u16 {
+})))?, 1, 3852079030227774582u64)) <= 258u16 {
 true => {
 0u16
 },
 
 false => {
-try_sub!(succ((try_fold_left_curried(glyph_name_index.iter().cloned(), 0u16, |tuple_var: (u16, u16)| PResult::Ok({
+try_sub!(try_arith!(checked_add, (try_fold_left_curried(glyph_name_index.iter().cloned(), 0u16, |tuple_var: (u16, u16)| PResult::Ok({
 let (acc, x) = tuple_var;
 match acc >= x {
 true => {
@@ -21150,7 +21150,7 @@ false => {
 x
 }
 }
-})))?), 258u16, 4672672775256824980u64)
+})))?, 1, 5176232487486782188u64), 258u16, 9220862562374507822u64)
 }
 } {
 let next_elem = (Decoder_opentype_post_pascal_string(_input))?;
@@ -21268,7 +21268,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3702191162545267776u64));
+return Err(ParseError::FalsifiedWhere(10755314521203959634u64));
 }
 };
 let max_twilight_points = {
@@ -21311,7 +21311,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14926982082392674388u64));
+return Err(ParseError::FalsifiedWhere(6506136565977297327u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21407,7 +21407,7 @@ opentype_cmap_subtable_data::Format14(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13281230340934385869u64));
+return Err(ParseError::ExcludedBranch(17617969929120925997u64));
 }
 };
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
@@ -21430,7 +21430,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9726369214549228587u64));
 inner
 }
 };
@@ -21455,7 +21455,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7323683635844484191u64));
 inner
 }
 };
@@ -21498,7 +21498,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2785003688991605442u64));
 inner
 }
 };
@@ -21508,12 +21508,12 @@ u16be(x)
 };
 let is_valid = {
 let l = inner;
-(l >= 518u16) && (l % 2u16 == 0u16)
+(l >= 518u16) && ((try_arith!(checked_rem, l, 2u16, 4319635423750959827u64)) == 0u16)
 };
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13266006752343456203u64));
+return Err(ParseError::FalsifiedWhere(3022274272397071746u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21534,7 +21534,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14869310993580240597u64));
 inner
 }
 };
@@ -21545,12 +21545,12 @@ u16be(x)
 };
 let is_valid = {
 let l = inner;
-(l >= 518u16) && (l % 2u16 == 0u16)
+(l >= 518u16) && ((try_arith!(checked_rem, l, 2u16, 7025852844623144626u64)) == 0u16)
 };
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16152968816646114000u64));
+return Err(ParseError::FalsifiedWhere(13513276483415770047u64));
 }
 };
 let language = {
@@ -21570,23 +21570,23 @@ accum
 };
 let sub_headers = {
 let mut accum = Vec::new();
-for _ in 0..succ(match (try_fold_left_curried(sub_header_keys.iter().cloned(), None, |tuple_var: (Option<u16>, u16)| PResult::Ok({
+for _ in 0..try_arith!(checked_add, match (try_fold_left_curried(sub_header_keys.iter().cloned(), None, |tuple_var: (Option<u16>, u16)| PResult::Ok({
 let (acc, y) = tuple_var;
 match acc {
 Some(x) => {
-Some(match x >= y / 8u16 {
+Some(match x >= (try_arith!(checked_div, y, 8u16, 8772793160380380086u64)) {
 true => {
 x
 },
 
 false => {
-y / 8u16
+try_arith!(checked_div, y, 8u16, 2605623462625042002u64)
 }
 })
 },
 
 None => {
-Some(y / 8u16)
+Some(try_arith!(checked_div, y, 8u16, 18164850183020044607u64))
 }
 }
 })))? {
@@ -21595,9 +21595,9 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(98102193810481173u64));
+return Err(ParseError::ExcludedBranch(10688770705819276010u64));
 }
-}) {
+}, 1, 10416240583538343445u64) {
 let next_elem = {
 let first_code = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -21675,7 +21675,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1292030895245088137u64));
 inner
 }
 };
@@ -21700,7 +21700,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8527564631842216417u64));
 inner
 }
 };
@@ -21717,7 +21717,7 @@ let seg_count_x2 = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-seg_count_x2 / 2u16
+try_arith!(checked_div, seg_count_x2, 2u16, 3529321240709143928u64)
 };
 let search_range = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -21754,7 +21754,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9481712747994656857u64));
 inner
 }
 };
@@ -21839,7 +21839,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11863749907612277673u64));
 inner
 }
 };
@@ -21890,7 +21890,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8408007422644693463u64));
 inner
 }
 };
@@ -21906,7 +21906,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2137824516769298342u64));
 inner
 }
 };
@@ -21931,7 +21931,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17504519908837839248u64));
 inner
 }
 };
@@ -21947,7 +21947,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5377488665469248769u64));
 inner
 }
 };
@@ -22002,7 +22002,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10179224889113195865u64));
 inner
 }
 };
@@ -22018,7 +22018,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2526895115167988738u64));
 inner
 }
 };
@@ -22043,7 +22043,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7617559532652678498u64));
 inner
 }
 };
@@ -22059,7 +22059,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4051432836859471288u64));
 inner
 }
 };
@@ -22113,7 +22113,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14741532803131558705u64));
 inner
 }
 };
@@ -22129,7 +22129,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10276185770177327434u64));
 inner
 }
 };
@@ -22154,7 +22154,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16586067667342674799u64));
 inner
 }
 };
@@ -22170,7 +22170,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2497564037439806374u64));
 inner
 }
 };
@@ -22217,7 +22217,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8400230153663738380u64));
 inner
 }
 };
@@ -22233,7 +22233,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3348696109325747597u64));
 inner
 }
 };
@@ -22258,7 +22258,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3775958429611079664u64));
 inner
 }
 };
@@ -22274,7 +22274,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15402873290357121767u64));
 inner
 }
 };
@@ -22321,7 +22321,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7699494290217942468u64));
 inner
 }
 };
@@ -22346,7 +22346,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15920470819585350103u64));
 inner
 }
 };
@@ -22513,7 +22513,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16096650375442290768u64));
+return Err(ParseError::FalsifiedWhere(2212229856396822503u64));
 })
 }
 
@@ -22531,7 +22531,7 @@ elf_types_elf_full::Full64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(13487040053473546512u64));
 }
 })
 }
@@ -22550,7 +22550,7 @@ elf_types_elf_addr::Addr64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(7142800526810245879u64));
 }
 })
 }
@@ -22569,7 +22569,7 @@ elf_types_elf_off::Off64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(15228292911834498078u64));
 }
 })
 }
@@ -22699,7 +22699,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12668500753644823654u64));
+return Err(ParseError::ExcludedBranch(14228769055716402588u64));
 }
 };
 let arg1 = {
@@ -22707,7 +22707,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8094248233631264621u64));
+return Err(ParseError::ExcludedBranch(2096340590066926443u64));
 }
 };
 let arg2 = {
@@ -22715,7 +22715,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(6262990113977164585u64));
 }
 };
 let arg3 = {
@@ -22723,7 +22723,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4839194687019048322u64));
+return Err(ParseError::ExcludedBranch(16057321717383774211u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22759,7 +22759,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7230273548678969972u64));
+return Err(ParseError::ExcludedBranch(5291563035461819971u64));
 }
 };
 accum.push(next_elem)
@@ -22782,7 +22782,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14903563845775542749u64));
+return Err(ParseError::FalsifiedWhere(14334546370445091615u64));
 })
 }
 
@@ -22801,7 +22801,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
+return Err(ParseError::FalsifiedWhere(18123524617814052121u64));
 })
 }
 
@@ -22831,7 +22831,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
+return Err(ParseError::FalsifiedWhere(3966750415843992376u64));
 })
 }
 
@@ -22845,7 +22845,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
+return Err(ParseError::FalsifiedWhere(3512844604428973098u64));
 })
 }
 
@@ -22859,7 +22859,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15510952803379905659u64));
+return Err(ParseError::FalsifiedWhere(14732383712267459599u64));
 })
 }
 
@@ -22920,7 +22920,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14681668243282477517u64));
+return Err(ParseError::ExcludedBranch(13357689525249598011u64));
 }
 };
 _input.close_peek_context()?;
@@ -22933,7 +22933,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6209434968043366837u64));
+return Err(ParseError::ExcludedBranch(16153196263894316997u64));
 }
 };
 accum.push(next_elem)
@@ -22970,7 +22970,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16474038368490899078u64));
+return Err(ParseError::ExcludedBranch(11930340298772268405u64));
 }
 };
 accum.push(next_elem)
@@ -23005,7 +23005,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12217686503432178884u64));
+return Err(ParseError::ExcludedBranch(8442068294613883251u64));
 }
 };
 _input.close_peek_context()?;
@@ -23018,7 +23018,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(6850311165997710199u64));
 }
 };
 accum.push(next_elem)
@@ -23055,7 +23055,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7832192330748800109u64));
+return Err(ParseError::ExcludedBranch(2310756498479603065u64));
 }
 };
 accum.push(next_elem)
@@ -23090,7 +23090,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9815657591077818003u64));
+return Err(ParseError::ExcludedBranch(5816243344835903905u64));
 }
 };
 _input.close_peek_context()?;
@@ -23103,7 +23103,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(16915030153566842158u64));
 }
 };
 accum.push(next_elem)
@@ -23140,7 +23140,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16624020278885696461u64));
+return Err(ParseError::ExcludedBranch(5877293982949196624u64));
 }
 };
 accum.push(next_elem)
@@ -23163,10 +23163,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14485842416732585139u64));
+return Err(ParseError::ExcludedBranch(2440323998191641952u64));
 }
 };
-try_sub!(bit as u8, 48u8, 5152282179373241998u64)
+try_sub!(bit as u8, 48u8, 11458871772722170518u64)
 };
 let _o9 = {
 let bit = {
@@ -23174,10 +23174,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13780055874544357936u64));
+return Err(ParseError::ExcludedBranch(12156808917241975156u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7933266403838225878u64)
+try_sub!(bit as u8, 48u8, 4255813677013328811u64)
 };
 let _o8 = {
 let bit = {
@@ -23185,10 +23185,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12100308281236296642u64));
+return Err(ParseError::ExcludedBranch(7761201277159812979u64));
 }
 };
-try_sub!(bit as u8, 48u8, 5025197102194587315u64)
+try_sub!(bit as u8, 48u8, 7572218778908935167u64)
 };
 let _o7 = {
 let bit = {
@@ -23196,10 +23196,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3810055094392728880u64));
+return Err(ParseError::ExcludedBranch(12520942526725743695u64));
 }
 };
-try_sub!(bit as u8, 48u8, 5599331855309773603u64)
+try_sub!(bit as u8, 48u8, 8609603324479018835u64)
 };
 let _o6 = {
 let bit = {
@@ -23207,10 +23207,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16437491640759399344u64));
+return Err(ParseError::ExcludedBranch(8973115486793444912u64));
 }
 };
-try_sub!(bit as u8, 48u8, 6215067399528787845u64)
+try_sub!(bit as u8, 48u8, 3556125603266802472u64)
 };
 let _o5 = {
 let bit = {
@@ -23218,10 +23218,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17176374570344757031u64));
+return Err(ParseError::ExcludedBranch(16173438081116718978u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7979287392867129207u64)
+try_sub!(bit as u8, 48u8, 1214015012285792661u64)
 };
 let _o4 = {
 let bit = {
@@ -23229,10 +23229,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3653195934333285574u64));
+return Err(ParseError::ExcludedBranch(18287039256282529512u64));
 }
 };
-try_sub!(bit as u8, 48u8, 10721249873135158334u64)
+try_sub!(bit as u8, 48u8, 6926344996361682930u64)
 };
 let _o3 = {
 let bit = {
@@ -23240,10 +23240,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8898504689444561451u64));
+return Err(ParseError::ExcludedBranch(1335666833550050804u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3950014938140253048u64)
+try_sub!(bit as u8, 48u8, 4317621489266312319u64)
 };
 let _o2 = {
 let bit = {
@@ -23251,10 +23251,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10046433636842398056u64));
+return Err(ParseError::ExcludedBranch(868434092978367357u64));
 }
 };
-try_sub!(bit as u8, 48u8, 757122060916971772u64)
+try_sub!(bit as u8, 48u8, 8244423856248085319u64)
 };
 let _o1 = {
 let bit = {
@@ -23262,10 +23262,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5986772336072340665u64));
+return Err(ParseError::ExcludedBranch(14587337454519331439u64));
 }
 };
-try_sub!(bit as u8, 48u8, 10645729856418057640u64)
+try_sub!(bit as u8, 48u8, 17175946860967673146u64)
 };
 let _o0 = {
 let bit = {
@@ -23273,10 +23273,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2908689796368760670u64));
+return Err(ParseError::ExcludedBranch(4411296728399804345u64));
 }
 };
-try_sub!(bit as u8, 48u8, 13311790038092155306u64)
+try_sub!(bit as u8, 48u8, 4312000683241916062u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23304,7 +23304,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(3334424754000117797u64));
 }
 };
 _input.close_peek_context()?;
@@ -23317,7 +23317,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(527013363415661133u64));
 }
 };
 accum.push(next_elem)
@@ -23354,7 +23354,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(4717292700030555590u64));
 }
 };
 accum.push(next_elem)
@@ -23389,7 +23389,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(653172816195928449u64));
 }
 };
 _input.close_peek_context()?;
@@ -23402,7 +23402,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(581976537271693173u64));
 }
 };
 accum.push(next_elem)
@@ -23439,7 +23439,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(10727170711560529872u64));
 }
 };
 accum.push(next_elem)
@@ -23468,7 +23468,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(17095884813960222885u64));
 }
 };
 let arg1 = {
@@ -23476,7 +23476,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(974442582679666596u64));
 }
 };
 let arg2 = {
@@ -23484,7 +23484,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(4054889295781446756u64));
 }
 };
 let arg3 = {
@@ -23492,7 +23492,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(14775695284177607002u64));
 }
 };
 let arg4 = {
@@ -23500,7 +23500,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(6914153644311469309u64));
 }
 };
 let arg5 = {
@@ -23508,7 +23508,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(11188141958235814565u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23519,7 +23519,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(15180040648844909945u64));
 }
 };
 let arg1 = {
@@ -23527,7 +23527,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(18312372211249290289u64));
 }
 };
 (arg0, arg1)
@@ -23566,7 +23566,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(6298802191889347847u64));
 }
 };
 _input.close_peek_context()?;
@@ -23579,7 +23579,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(11017185023542530489u64));
 }
 };
 accum.push(next_elem)
@@ -23616,7 +23616,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(15395924218065814216u64));
 }
 };
 accum.push(next_elem)
@@ -23651,7 +23651,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(14060832500024730160u64));
 }
 };
 _input.close_peek_context()?;
@@ -23664,7 +23664,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1029952099207838423u64));
+return Err(ParseError::ExcludedBranch(3344470983013526080u64));
 }
 };
 accum.push(next_elem)
@@ -23701,7 +23701,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17327099206515189757u64));
+return Err(ParseError::ExcludedBranch(10251322642913008199u64));
 }
 };
 accum.push(next_elem)
@@ -23731,7 +23731,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14652068248613900169u64));
+return Err(ParseError::ExcludedBranch(10455173543833790502u64));
 }
 };
 accum.push(next_elem)
@@ -23785,7 +23785,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3089242474000390105u64));
+return Err(ParseError::ExcludedBranch(1789963736344690987u64));
 }
 };
 accum.push(next_elem)
@@ -23819,7 +23819,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8785324329127396734u64));
+return Err(ParseError::ExcludedBranch(15079752956117840734u64));
 }
 };
 accum.push(next_elem)
@@ -23838,7 +23838,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(7980438082889912554u64));
 })
 }
 
@@ -23877,7 +23877,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(6840264564700035644u64));
 }
 };
 accum.push(next_elem)
@@ -23913,7 +23913,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(2232617280930402416u64));
 }
 };
 accum.push(next_elem)
@@ -23944,7 +23944,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(10367781439645737926u64));
 }
 };
 _input.close_peek_context()?;
@@ -23957,7 +23957,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(6016311883578211466u64));
 }
 };
 accum.push(next_elem)
@@ -23999,7 +23999,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(14984769167642974435u64));
 }
 };
 accum.push(next_elem)
@@ -24025,7 +24025,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(8938360652744148620u64));
 }
 };
 _input.close_peek_context()?;
@@ -24039,7 +24039,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(11733915986279978987u64));
 }
 };
 let arg1 = {
@@ -24047,7 +24047,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(12796096677294114859u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -24059,7 +24059,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(4290849149416714172u64));
 }
 };
 let arg1 = {
@@ -24067,14 +24067,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(2598935692633451852u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(3379987508464424555u64));
 }
 })
 }
@@ -24294,12 +24294,12 @@ PResult::Ok(accum)
 _input.end_slice()?;
 ret
 };
-let pad = if length % 2u32 == 1u32 {
+let pad = if (try_arith!(checked_rem, length, 2u32, 1457499133218925748u64)) == 1u32 {
 let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(11173052675913205247u64));
 })
 } else {
 None
@@ -24321,7 +24321,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9465826900165497155u64));
+return Err(ParseError::FalsifiedWhere(1780493074893517013u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24353,7 +24353,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
+return Err(ParseError::FalsifiedWhere(5013701440573848944u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24489,7 +24489,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6611121695530188940u64));
+return Err(ParseError::FalsifiedWhere(15508559755986719975u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24523,7 +24523,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9660375186237087060u64));
+return Err(ParseError::FalsifiedWhere(14782609537615230269u64));
 }
 };
 let flags = {
@@ -24566,7 +24566,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
+return Err(ParseError::FalsifiedWhere(17984802637964449391u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24584,7 +24584,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(4337320827937013231u64));
 }
 };
 let arg1 = {
@@ -24592,7 +24592,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9710347097769530785u64));
+return Err(ParseError::ExcludedBranch(9730514595131843432u64));
 }
 };
 let arg2 = {
@@ -24600,7 +24600,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(11851311358763079517u64));
 }
 };
 let arg3 = {
@@ -24608,7 +24608,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(4195586632355556000u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24621,7 +24621,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(3595083506735372973u64));
 }
 };
 let arg1 = {
@@ -24629,7 +24629,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(7160308966995483862u64));
 }
 };
 let arg2 = {
@@ -24637,7 +24637,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(10995965655495216468u64));
 }
 };
 let arg3 = {
@@ -24645,7 +24645,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(329678914966083835u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24691,7 +24691,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(6740511944232229269u64));
 }
 };
 let arg1 = {
@@ -24699,7 +24699,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(16842149192073737461u64));
 }
 };
 let arg2 = {
@@ -24707,7 +24707,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(2734069901426030304u64));
 }
 };
 let arg3 = {
@@ -24715,7 +24715,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(8313738771561634204u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24739,7 +24739,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(5782291498890001703u64));
 }
 };
 let arg1 = {
@@ -24747,7 +24747,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(10699246393255895644u64));
 }
 };
 let arg2 = {
@@ -24755,7 +24755,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(16725113430369695556u64));
 }
 };
 let arg3 = {
@@ -24763,7 +24763,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(10581544802310072854u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24794,7 +24794,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(2930236810929305906u64));
 }
 };
 accum.push(next_elem)
@@ -24904,7 +24904,7 @@ png_trns::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(9788088961065186348u64));
 }
 })
 }
@@ -24964,7 +24964,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(13475201244121026739u64));
 }
 };
 val.clone()
@@ -24974,7 +24974,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(10514680212862927148u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -25033,7 +25033,7 @@ png_sbit::color_type_6(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+return Err(ParseError::ExcludedBranch(1404288588910574651u64));
 }
 })
 }
@@ -25049,7 +25049,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5041932778480497827u64));
+return Err(ParseError::FalsifiedWhere(9722140062746187322u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -25064,7 +25064,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4514882359072253410u64));
+return Err(ParseError::ExcludedBranch(14672290401516300248u64));
 }
 };
 val.clone()
@@ -25074,7 +25074,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13286112843953025473u64));
+return Err(ParseError::ExcludedBranch(1570732024996461745u64));
 }
 };
 let compression_method = {
@@ -25082,7 +25082,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15541745679144160988u64));
+return Err(ParseError::ExcludedBranch(3970524133912495743u64));
 }
 };
 let language_tag = {
@@ -25102,7 +25102,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16366772103869684910u64));
+return Err(ParseError::ExcludedBranch(10022572355386706896u64));
 }
 };
 _input.close_peek_context()?;
@@ -25115,7 +25115,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16354405091856567045u64));
+return Err(ParseError::ExcludedBranch(7175325427369635964u64));
 }
 };
 accum.push(next_elem)
@@ -25130,7 +25130,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15047091743774256727u64));
+return Err(ParseError::ExcludedBranch(10941190781838111798u64));
 }
 };
 chars.clone()
@@ -25142,7 +25142,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(89425857491903975u64));
+return Err(ParseError::ExcludedBranch(8533828000951561331u64));
 }
 };
 val.clone()
@@ -25233,7 +25233,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4693381172248071257u64));
+return Err(ParseError::ExcludedBranch(7620563226324297760u64));
 }
 };
 val.clone()
@@ -25275,7 +25275,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10755314521203959634u64));
+return Err(ParseError::ExcludedBranch(3141147280724933447u64));
 }
 };
 val.clone()
@@ -25285,7 +25285,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+return Err(ParseError::ExcludedBranch(5155365750119375266u64));
 }
 };
 let compressed_text = {
@@ -25369,7 +25369,7 @@ png_bkgd::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+return Err(ParseError::ExcludedBranch(6019636780841875619u64));
 }
 })
 }
@@ -25430,7 +25430,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+return Err(ParseError::ExcludedBranch(9286045119570450224u64));
 }
 };
 val.clone()
@@ -25440,7 +25440,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+return Err(ParseError::ExcludedBranch(12351156548319118754u64));
 }
 };
 let palette = match sample_depth {
@@ -25535,7 +25535,7 @@ png_splt_palette::sample_depth_u16(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2785003688991605442u64));
+return Err(ParseError::ExcludedBranch(16002368984748306955u64));
 }
 };
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
@@ -26040,475 +26040,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17143373953369837893u64));
+return Err(ParseError::ExcludedBranch(2518353173875372183u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4319635423750959827u64));
+return Err(ParseError::ExcludedBranch(1057280760989719477u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3022274272397071746u64));
+return Err(ParseError::ExcludedBranch(4360542291358407189u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14869310993580240597u64));
+return Err(ParseError::ExcludedBranch(11728165168471348185u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7391010474856587818u64));
+return Err(ParseError::ExcludedBranch(10495009576779598530u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7025852844623144626u64));
+return Err(ParseError::ExcludedBranch(7128967683436470476u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13513276483415770047u64));
+return Err(ParseError::ExcludedBranch(3036714361878569528u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1292030895245088137u64));
+return Err(ParseError::ExcludedBranch(17797183748027644744u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8527564631842216417u64));
+return Err(ParseError::ExcludedBranch(4766620025042958433u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10545338643554355463u64));
+return Err(ParseError::ExcludedBranch(3832366084378679427u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3529321240709143928u64));
+return Err(ParseError::ExcludedBranch(12230053902523648559u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9481712747994656857u64));
+return Err(ParseError::ExcludedBranch(6309917041149428265u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11863749907612277673u64));
+return Err(ParseError::ExcludedBranch(14708340496221370872u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8408007422644693463u64));
+return Err(ParseError::ExcludedBranch(8149951888585961823u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2137824516769298342u64));
+return Err(ParseError::ExcludedBranch(9665308631980535174u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17504519908837839248u64));
+return Err(ParseError::ExcludedBranch(17114848294724579474u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5377488665469248769u64));
+return Err(ParseError::ExcludedBranch(6471433373632717886u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10179224889113195865u64));
+return Err(ParseError::ExcludedBranch(11488186652992817125u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2526895115167988738u64));
+return Err(ParseError::ExcludedBranch(16428598146864409139u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7617559532652678498u64));
+return Err(ParseError::ExcludedBranch(11934620222090497034u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4051432836859471288u64));
+return Err(ParseError::ExcludedBranch(7597388605883543966u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14741532803131558705u64));
+return Err(ParseError::ExcludedBranch(1942606498606899849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10276185770177327434u64));
+return Err(ParseError::ExcludedBranch(9288520242296510642u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16586067667342674799u64));
+return Err(ParseError::ExcludedBranch(12753818979092594971u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2497564037439806374u64));
+return Err(ParseError::ExcludedBranch(9662462399070735352u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8400230153663738380u64));
+return Err(ParseError::ExcludedBranch(8414850703985147087u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3348696109325747597u64));
+return Err(ParseError::ExcludedBranch(14428558544277089677u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3775958429611079664u64));
+return Err(ParseError::ExcludedBranch(17505260505493155057u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15402873290357121767u64));
+return Err(ParseError::ExcludedBranch(4244096627290639074u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7699494290217942468u64));
+return Err(ParseError::ExcludedBranch(16278372111013231116u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15920470819585350103u64));
+return Err(ParseError::ExcludedBranch(4797145928961714098u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2212229856396822503u64));
+return Err(ParseError::ExcludedBranch(11396441833338683368u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13487040053473546512u64));
+return Err(ParseError::ExcludedBranch(18000244536401340529u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7142800526810245879u64));
+return Err(ParseError::ExcludedBranch(17499296848696657524u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15228292911834498078u64));
+return Err(ParseError::ExcludedBranch(17871409524597489995u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14228769055716402588u64));
+return Err(ParseError::ExcludedBranch(18319329181163975393u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2096340590066926443u64));
+return Err(ParseError::ExcludedBranch(9728697411637566730u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6262990113977164585u64));
+return Err(ParseError::ExcludedBranch(9691647707184281179u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16057321717383774211u64));
+return Err(ParseError::ExcludedBranch(7972156773864461481u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5291563035461819971u64));
+return Err(ParseError::ExcludedBranch(11074874806330017418u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14334546370445091615u64));
+return Err(ParseError::ExcludedBranch(12662813720965160010u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18123524617814052121u64));
+return Err(ParseError::ExcludedBranch(3243138897542356980u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3966750415843992376u64));
+return Err(ParseError::ExcludedBranch(15920917552321559809u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3512844604428973098u64));
+return Err(ParseError::ExcludedBranch(835240278964504247u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14732383712267459599u64));
+return Err(ParseError::ExcludedBranch(7150174851274887183u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13357689525249598011u64));
+return Err(ParseError::ExcludedBranch(11306355108769900243u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16153196263894316997u64));
+return Err(ParseError::ExcludedBranch(9864490923722431849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11930340298772268405u64));
+return Err(ParseError::ExcludedBranch(1995664400520545068u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8442068294613883251u64));
+return Err(ParseError::ExcludedBranch(14904826071154862403u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6850311165997710199u64));
+return Err(ParseError::ExcludedBranch(9819888267966403254u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2310756498479603065u64));
+return Err(ParseError::ExcludedBranch(9848248130448711783u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5816243344835903905u64));
+return Err(ParseError::ExcludedBranch(13072404838946064765u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16915030153566842158u64));
+return Err(ParseError::ExcludedBranch(608962121954693839u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5877293982949196624u64));
+return Err(ParseError::ExcludedBranch(4003079682566975393u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2440323998191641952u64));
+return Err(ParseError::ExcludedBranch(4315160623525052581u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3265375406401843811u64));
+return Err(ParseError::ExcludedBranch(1862457564087794359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11458871772722170518u64));
+return Err(ParseError::ExcludedBranch(4725257428709613290u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+return Err(ParseError::ExcludedBranch(11823569341425521789u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15301408058960503169u64));
+return Err(ParseError::ExcludedBranch(14474361861190022573u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4255813677013328811u64));
+return Err(ParseError::ExcludedBranch(8440332211549640930u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7761201277159812979u64));
+return Err(ParseError::ExcludedBranch(13045651918551022996u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15409834313606096443u64));
+return Err(ParseError::ExcludedBranch(12507789284617859731u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7572218778908935167u64));
+return Err(ParseError::ExcludedBranch(4636203914394120912u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12520942526725743695u64));
+return Err(ParseError::ExcludedBranch(12770885481695079655u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5905249956584638130u64));
+return Err(ParseError::ExcludedBranch(5713736954960046494u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8609603324479018835u64));
+return Err(ParseError::ExcludedBranch(5286459060741837465u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8973115486793444912u64));
+return Err(ParseError::ExcludedBranch(10857757036842967573u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2872401692234135189u64));
+return Err(ParseError::ExcludedBranch(8347358143797316202u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3556125603266802472u64));
+return Err(ParseError::ExcludedBranch(9289217078927880343u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16173438081116718978u64));
+return Err(ParseError::ExcludedBranch(7619374930571283120u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3532284049956758497u64));
+return Err(ParseError::ExcludedBranch(5502272810018950495u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1214015012285792661u64));
+return Err(ParseError::ExcludedBranch(9422091606538556682u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18287039256282529512u64));
+return Err(ParseError::ExcludedBranch(1986031727359985319u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6040541316788286267u64));
+return Err(ParseError::ExcludedBranch(2609726213773413101u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6926344996361682930u64));
+return Err(ParseError::ExcludedBranch(4688564412461098550u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1335666833550050804u64));
+return Err(ParseError::ExcludedBranch(4942686269660057715u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12949211704949756849u64));
+return Err(ParseError::ExcludedBranch(9251320185524837870u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4317621489266312319u64));
+return Err(ParseError::ExcludedBranch(16934907723271638747u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(868434092978367357u64));
+return Err(ParseError::ExcludedBranch(12709578918531114377u64));
 }
 };
 _input.close_peek_context()?;
@@ -26523,7 +26523,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(496554245154466536u64));
+return Err(ParseError::ExcludedBranch(4227980562164448700u64));
 }
 };
 accum.push(next_elem)
@@ -27018,475 +27018,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8244423856248085319u64));
+return Err(ParseError::ExcludedBranch(6852038687184722387u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14587337454519331439u64));
+return Err(ParseError::ExcludedBranch(18441633166538026093u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17469688165057057832u64));
+return Err(ParseError::ExcludedBranch(401788761305210720u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17175946860967673146u64));
+return Err(ParseError::ExcludedBranch(5252251088830583126u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4411296728399804345u64));
+return Err(ParseError::ExcludedBranch(5396814765406749711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13980028702310773940u64));
+return Err(ParseError::ExcludedBranch(12786091976415550822u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4312000683241916062u64));
+return Err(ParseError::ExcludedBranch(15224635086995724042u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3334424754000117797u64));
+return Err(ParseError::ExcludedBranch(12911570055982528377u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(527013363415661133u64));
+return Err(ParseError::ExcludedBranch(17578303967306014514u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4717292700030555590u64));
+return Err(ParseError::ExcludedBranch(7236895128762201498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(653172816195928449u64));
+return Err(ParseError::ExcludedBranch(10396295304006156759u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(581976537271693173u64));
+return Err(ParseError::ExcludedBranch(14603388329461445014u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10727170711560529872u64));
+return Err(ParseError::ExcludedBranch(15092052115449480204u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17095884813960222885u64));
+return Err(ParseError::ExcludedBranch(5644646321622228807u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(974442582679666596u64));
+return Err(ParseError::ExcludedBranch(12876869868341544086u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4054889295781446756u64));
+return Err(ParseError::ExcludedBranch(6757475294452472580u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14775695284177607002u64));
+return Err(ParseError::ExcludedBranch(5316076842439816359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6914153644311469309u64));
+return Err(ParseError::ExcludedBranch(13241229060561103069u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11188141958235814565u64));
+return Err(ParseError::ExcludedBranch(8896324603808149952u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15180040648844909945u64));
+return Err(ParseError::ExcludedBranch(8480214967847684808u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18312372211249290289u64));
+return Err(ParseError::ExcludedBranch(4089331332020821320u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6298802191889347847u64));
+return Err(ParseError::ExcludedBranch(7660172056721883940u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11017185023542530489u64));
+return Err(ParseError::ExcludedBranch(8118664158941399609u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15395924218065814216u64));
+return Err(ParseError::ExcludedBranch(11259402406166723834u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14060832500024730160u64));
+return Err(ParseError::ExcludedBranch(2562653558681619679u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3344470983013526080u64));
+return Err(ParseError::ExcludedBranch(9066549901844041194u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10251322642913008199u64));
+return Err(ParseError::ExcludedBranch(17788403991563985894u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10455173543833790502u64));
+return Err(ParseError::ExcludedBranch(14014946361797352706u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1789963736344690987u64));
+return Err(ParseError::ExcludedBranch(17148278567107839372u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15079752956117840734u64));
+return Err(ParseError::ExcludedBranch(10059971034460660304u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7980438082889912554u64));
+return Err(ParseError::ExcludedBranch(11566301548302897286u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6840264564700035644u64));
+return Err(ParseError::ExcludedBranch(4726882489015010540u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2232617280930402416u64));
+return Err(ParseError::ExcludedBranch(16731067715008063623u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10367781439645737926u64));
+return Err(ParseError::ExcludedBranch(10050470520268747158u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6016311883578211466u64));
+return Err(ParseError::ExcludedBranch(7028862034699171644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14984769167642974435u64));
+return Err(ParseError::ExcludedBranch(6768457941542394460u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11733915986279978987u64));
+return Err(ParseError::ExcludedBranch(3336832804021932765u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12796096677294114859u64));
+return Err(ParseError::ExcludedBranch(14287222125204946454u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4290849149416714172u64));
+return Err(ParseError::ExcludedBranch(14784334396256787566u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2598935692633451852u64));
+return Err(ParseError::ExcludedBranch(17975519714191498979u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8938360652744148620u64));
+return Err(ParseError::ExcludedBranch(15547793456796641064u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3379987508464424555u64));
+return Err(ParseError::ExcludedBranch(2708015872450907711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11173052675913205247u64));
+return Err(ParseError::ExcludedBranch(17628659998315744600u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1780493074893517013u64));
+return Err(ParseError::ExcludedBranch(7574719322668410505u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5013701440573848944u64));
+return Err(ParseError::ExcludedBranch(6886530205512451724u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15508559755986719975u64));
+return Err(ParseError::ExcludedBranch(4782096577080450146u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14782609537615230269u64));
+return Err(ParseError::ExcludedBranch(14577481400621526493u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17984802637964449391u64));
+return Err(ParseError::ExcludedBranch(14148913971033431093u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4337320827937013231u64));
+return Err(ParseError::ExcludedBranch(17190949120592669315u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9730514595131843432u64));
+return Err(ParseError::ExcludedBranch(8699787504309122591u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11851311358763079517u64));
+return Err(ParseError::ExcludedBranch(78099073500381561u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4195586632355556000u64));
+return Err(ParseError::ExcludedBranch(5364461768558038471u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3595083506735372973u64));
+return Err(ParseError::ExcludedBranch(7135191863324865081u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7160308966995483862u64));
+return Err(ParseError::ExcludedBranch(5733684513012333041u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10995965655495216468u64));
+return Err(ParseError::ExcludedBranch(3269600573864009399u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(329678914966083835u64));
+return Err(ParseError::ExcludedBranch(16604650314446872341u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6740511944232229269u64));
+return Err(ParseError::ExcludedBranch(14275129881911283147u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+return Err(ParseError::ExcludedBranch(8473763373531540844u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2734069901426030304u64));
+return Err(ParseError::ExcludedBranch(9532564966458988001u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8313738771561634204u64));
+return Err(ParseError::ExcludedBranch(1456571545446476568u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5782291498890001703u64));
+return Err(ParseError::ExcludedBranch(14908888453225293887u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10699246393255895644u64));
+return Err(ParseError::ExcludedBranch(4384065895993710795u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16725113430369695556u64));
+return Err(ParseError::ExcludedBranch(14063858022942822585u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10581544802310072854u64));
+return Err(ParseError::ExcludedBranch(7083101893872508858u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2930236810929305906u64));
+return Err(ParseError::ExcludedBranch(15979415359593570628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9788088961065186348u64));
+return Err(ParseError::ExcludedBranch(17922878356929717082u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13475201244121026739u64));
+return Err(ParseError::ExcludedBranch(15321253101048235163u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10514680212862927148u64));
+return Err(ParseError::ExcludedBranch(14285291594842403582u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1404288588910574651u64));
+return Err(ParseError::ExcludedBranch(7161350271661739096u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9722140062746187322u64));
+return Err(ParseError::ExcludedBranch(14445026714989735755u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14672290401516300248u64));
+return Err(ParseError::ExcludedBranch(7573348369521592997u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1570732024996461745u64));
+return Err(ParseError::ExcludedBranch(2912602219218223367u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3970524133912495743u64));
+return Err(ParseError::ExcludedBranch(15885886181646629118u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10022572355386706896u64));
+return Err(ParseError::ExcludedBranch(13594649006224468849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7175325427369635964u64));
+return Err(ParseError::ExcludedBranch(14349391981174483355u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10941190781838111798u64));
+return Err(ParseError::ExcludedBranch(10927780046062734427u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8533828000951561331u64));
+return Err(ParseError::ExcludedBranch(13819997351842221509u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7620563226324297760u64));
+return Err(ParseError::ExcludedBranch(11959902760514814588u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3141147280724933447u64));
+return Err(ParseError::ExcludedBranch(14114750189009003637u64));
 }
 };
 _input.close_peek_context()?;
@@ -27501,7 +27501,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5155365750119375266u64));
+return Err(ParseError::ExcludedBranch(12268471799124361536u64));
 }
 };
 accum.push(next_elem)
@@ -27527,7 +27527,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6019636780841875619u64));
+return Err(ParseError::FalsifiedWhere(9620443865397033050u64));
 }
 };
 let flags = {
@@ -28041,475 +28041,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9286045119570450224u64));
+return Err(ParseError::ExcludedBranch(3999778194527899420u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12351156548319118754u64));
+return Err(ParseError::ExcludedBranch(3933597635930613605u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16002368984748306955u64));
+return Err(ParseError::ExcludedBranch(5638313771627483501u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2518353173875372183u64));
+return Err(ParseError::ExcludedBranch(1105171745447487568u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1057280760989719477u64));
+return Err(ParseError::ExcludedBranch(646997207007428137u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4360542291358407189u64));
+return Err(ParseError::ExcludedBranch(6351919260209655786u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11728165168471348185u64));
+return Err(ParseError::ExcludedBranch(552953513858366451u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10495009576779598530u64));
+return Err(ParseError::ExcludedBranch(17332407069754301555u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7128967683436470476u64));
+return Err(ParseError::ExcludedBranch(14279133095670415871u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3036714361878569528u64));
+return Err(ParseError::ExcludedBranch(7347749870002275487u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17797183748027644744u64));
+return Err(ParseError::ExcludedBranch(10748847049349746078u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4766620025042958433u64));
+return Err(ParseError::ExcludedBranch(14220958138979104104u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3832366084378679427u64));
+return Err(ParseError::ExcludedBranch(17741760072369420240u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12230053902523648559u64));
+return Err(ParseError::ExcludedBranch(12223407337737822059u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6309917041149428265u64));
+return Err(ParseError::ExcludedBranch(6072942808717419822u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14708340496221370872u64));
+return Err(ParseError::ExcludedBranch(15560056883377919848u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8149951888585961823u64));
+return Err(ParseError::ExcludedBranch(7977419944699061624u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9665308631980535174u64));
+return Err(ParseError::ExcludedBranch(8323252642575612937u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17114848294724579474u64));
+return Err(ParseError::ExcludedBranch(11678443062630698028u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6471433373632717886u64));
+return Err(ParseError::ExcludedBranch(14832405617500840744u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11488186652992817125u64));
+return Err(ParseError::ExcludedBranch(1398536204687975789u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16428598146864409139u64));
+return Err(ParseError::ExcludedBranch(7336714497745271452u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11934620222090497034u64));
+return Err(ParseError::ExcludedBranch(4152914559762097168u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7597388605883543966u64));
+return Err(ParseError::ExcludedBranch(1152534299541961510u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1942606498606899849u64));
+return Err(ParseError::ExcludedBranch(5095757730543354711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9288520242296510642u64));
+return Err(ParseError::ExcludedBranch(4668055697655854201u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12753818979092594971u64));
+return Err(ParseError::ExcludedBranch(6515957116553005671u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9662462399070735352u64));
+return Err(ParseError::ExcludedBranch(2017059186547121525u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8414850703985147087u64));
+return Err(ParseError::ExcludedBranch(11789784461021426583u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14428558544277089677u64));
+return Err(ParseError::ExcludedBranch(16022216421479351095u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17505260505493155057u64));
+return Err(ParseError::ExcludedBranch(15337804701822118436u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4244096627290639074u64));
+return Err(ParseError::ExcludedBranch(2750471357152633230u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16278372111013231116u64));
+return Err(ParseError::ExcludedBranch(8306706226429158303u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4797145928961714098u64));
+return Err(ParseError::ExcludedBranch(8033982984919675631u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11396441833338683368u64));
+return Err(ParseError::ExcludedBranch(7258731811542513498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18000244536401340529u64));
+return Err(ParseError::ExcludedBranch(1283209893442238385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17499296848696657524u64));
+return Err(ParseError::ExcludedBranch(1920187793319100008u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17871409524597489995u64));
+return Err(ParseError::ExcludedBranch(7474037925185307628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18319329181163975393u64));
+return Err(ParseError::ExcludedBranch(4475730102931494177u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9728697411637566730u64));
+return Err(ParseError::ExcludedBranch(17780439059155340308u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9691647707184281179u64));
+return Err(ParseError::ExcludedBranch(6739127967943113267u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7972156773864461481u64));
+return Err(ParseError::ExcludedBranch(10170756778737993654u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11074874806330017418u64));
+return Err(ParseError::ExcludedBranch(14306133355400503306u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12662813720965160010u64));
+return Err(ParseError::ExcludedBranch(8902666087419502325u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3243138897542356980u64));
+return Err(ParseError::ExcludedBranch(10248009767256971850u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15920917552321559809u64));
+return Err(ParseError::ExcludedBranch(7807103255128873628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(835240278964504247u64));
+return Err(ParseError::ExcludedBranch(7840596951976883698u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7150174851274887183u64));
+return Err(ParseError::ExcludedBranch(8004105446758774533u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11306355108769900243u64));
+return Err(ParseError::ExcludedBranch(12569316739694558801u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9864490923722431849u64));
+return Err(ParseError::ExcludedBranch(2967911718584065013u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1995664400520545068u64));
+return Err(ParseError::ExcludedBranch(7227788188777836434u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14904826071154862403u64));
+return Err(ParseError::ExcludedBranch(2859130192484418172u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9819888267966403254u64));
+return Err(ParseError::ExcludedBranch(12550558264664848853u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9848248130448711783u64));
+return Err(ParseError::ExcludedBranch(16954835414833850385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13072404838946064765u64));
+return Err(ParseError::ExcludedBranch(1891774877762105457u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(608962121954693839u64));
+return Err(ParseError::ExcludedBranch(13705211812356460160u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4003079682566975393u64));
+return Err(ParseError::ExcludedBranch(5515497093089591991u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+return Err(ParseError::ExcludedBranch(1328880024623199753u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1862457564087794359u64));
+return Err(ParseError::ExcludedBranch(6882184431082022206u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4725257428709613290u64));
+return Err(ParseError::ExcludedBranch(3998072683184925592u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11823569341425521789u64));
+return Err(ParseError::ExcludedBranch(29850628954056690u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14474361861190022573u64));
+return Err(ParseError::ExcludedBranch(7279615132236188739u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8440332211549640930u64));
+return Err(ParseError::ExcludedBranch(17636172564439370608u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13045651918551022996u64));
+return Err(ParseError::ExcludedBranch(13863787293436782080u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12507789284617859731u64));
+return Err(ParseError::ExcludedBranch(16714498072262546943u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4636203914394120912u64));
+return Err(ParseError::ExcludedBranch(2157707350523277837u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12770885481695079655u64));
+return Err(ParseError::ExcludedBranch(15134222038433106385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5713736954960046494u64));
+return Err(ParseError::ExcludedBranch(14950271805613481359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5286459060741837465u64));
+return Err(ParseError::ExcludedBranch(5499566165243611472u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10857757036842967573u64));
+return Err(ParseError::ExcludedBranch(11265176092564100083u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8347358143797316202u64));
+return Err(ParseError::ExcludedBranch(14916894554939814670u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9289217078927880343u64));
+return Err(ParseError::ExcludedBranch(10473830801714814973u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7619374930571283120u64));
+return Err(ParseError::ExcludedBranch(5334325531610156978u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5502272810018950495u64));
+return Err(ParseError::ExcludedBranch(16975008930446149745u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9422091606538556682u64));
+return Err(ParseError::ExcludedBranch(760820951392925727u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1986031727359985319u64));
+return Err(ParseError::ExcludedBranch(14363790737598139216u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2609726213773413101u64));
+return Err(ParseError::ExcludedBranch(4600414761378562541u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4688564412461098550u64));
+return Err(ParseError::ExcludedBranch(18313399323903636110u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4942686269660057715u64));
+return Err(ParseError::ExcludedBranch(15786118691017431738u64));
 }
 };
 _input.close_peek_context()?;
@@ -28524,7 +28524,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9251320185524837870u64));
+return Err(ParseError::ExcludedBranch(16165934354425559621u64));
 }
 };
 accum.push(next_elem)
@@ -29019,475 +29019,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16934907723271638747u64));
+return Err(ParseError::ExcludedBranch(16399036514137665776u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12709578918531114377u64));
+return Err(ParseError::ExcludedBranch(7931358881575056193u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4227980562164448700u64));
+return Err(ParseError::ExcludedBranch(17863486658382945784u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6852038687184722387u64));
+return Err(ParseError::ExcludedBranch(11515797873012483658u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18441633166538026093u64));
+return Err(ParseError::ExcludedBranch(8584109755265226714u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(401788761305210720u64));
+return Err(ParseError::ExcludedBranch(8076978189295213982u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5252251088830583126u64));
+return Err(ParseError::ExcludedBranch(11570281271401624317u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5396814765406749711u64));
+return Err(ParseError::ExcludedBranch(14687724984806605719u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12786091976415550822u64));
+return Err(ParseError::ExcludedBranch(1378805635639824117u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15224635086995724042u64));
+return Err(ParseError::ExcludedBranch(8385173961957899741u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12911570055982528377u64));
+return Err(ParseError::ExcludedBranch(8407356061009412694u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17578303967306014514u64));
+return Err(ParseError::ExcludedBranch(6881565717664829242u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7236895128762201498u64));
+return Err(ParseError::ExcludedBranch(13752480002470540422u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10396295304006156759u64));
+return Err(ParseError::ExcludedBranch(17107648091243309207u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14603388329461445014u64));
+return Err(ParseError::ExcludedBranch(5534609128357633386u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15092052115449480204u64));
+return Err(ParseError::ExcludedBranch(14539762430836305896u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5644646321622228807u64));
+return Err(ParseError::ExcludedBranch(16625761205375889740u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12876869868341544086u64));
+return Err(ParseError::ExcludedBranch(2662265345698212949u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6757475294452472580u64));
+return Err(ParseError::ExcludedBranch(3344648651879382526u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5316076842439816359u64));
+return Err(ParseError::ExcludedBranch(8599210436172030522u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13241229060561103069u64));
+return Err(ParseError::ExcludedBranch(3484767027554133518u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8896324603808149952u64));
+return Err(ParseError::ExcludedBranch(15403934492100194569u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8480214967847684808u64));
+return Err(ParseError::ExcludedBranch(12041148194529633639u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4089331332020821320u64));
+return Err(ParseError::ExcludedBranch(2288772415159374970u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7660172056721883940u64));
+return Err(ParseError::ExcludedBranch(17888323854924040413u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8118664158941399609u64));
+return Err(ParseError::ExcludedBranch(6279087434444973374u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11259402406166723834u64));
+return Err(ParseError::ExcludedBranch(11074951631636946051u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2562653558681619679u64));
+return Err(ParseError::ExcludedBranch(15601622509425384091u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066549901844041194u64));
+return Err(ParseError::ExcludedBranch(13675295148592556047u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17788403991563985894u64));
+return Err(ParseError::ExcludedBranch(4569970360394099475u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14014946361797352706u64));
+return Err(ParseError::ExcludedBranch(9110520999974091875u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17148278567107839372u64));
+return Err(ParseError::ExcludedBranch(15293691521783146694u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10059971034460660304u64));
+return Err(ParseError::ExcludedBranch(15433822888775103886u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11566301548302897286u64));
+return Err(ParseError::ExcludedBranch(8403192837054512577u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4726882489015010540u64));
+return Err(ParseError::ExcludedBranch(17073037115051226650u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16731067715008063623u64));
+return Err(ParseError::ExcludedBranch(3975307768385535064u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10050470520268747158u64));
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7028862034699171644u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6768457941542394460u64));
+return Err(ParseError::ExcludedBranch(12017601628070515145u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3336832804021932765u64));
+return Err(ParseError::ExcludedBranch(1872233699568519226u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14287222125204946454u64));
+return Err(ParseError::ExcludedBranch(10708294527730390829u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14784334396256787566u64));
+return Err(ParseError::ExcludedBranch(7432469293302627017u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17975519714191498979u64));
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15547793456796641064u64));
+return Err(ParseError::ExcludedBranch(9159119361499271180u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2708015872450907711u64));
+return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17628659998315744600u64));
+return Err(ParseError::ExcludedBranch(3490919313637905107u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7574719322668410505u64));
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6886530205512451724u64));
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4782096577080450146u64));
+return Err(ParseError::ExcludedBranch(15311158871930328757u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14577481400621526493u64));
+return Err(ParseError::ExcludedBranch(9892894478446917378u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14148913971033431093u64));
+return Err(ParseError::ExcludedBranch(3585635225240718191u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17190949120592669315u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8699787504309122591u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(78099073500381561u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5364461768558038471u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7135191863324865081u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5733684513012333041u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3269600573864009399u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14275129881911283147u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1456571545446476568u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14908888453225293887u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4384065895993710795u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14063858022942822585u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7083101893872508858u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15979415359593570628u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17922878356929717082u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15321253101048235163u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14285291594842403582u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7161350271661739096u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14445026714989735755u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7573348369521592997u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2912602219218223367u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15885886181646629118u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13594649006224468849u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14349391981174483355u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10927780046062734427u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 };
 _input.close_peek_context()?;
@@ -29502,7 +29502,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13819997351842221509u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 };
 accum.push(next_elem)
@@ -29561,7 +29561,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11959902760514814588u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 };
 _input.close_peek_context()?;
@@ -29594,7 +29594,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14114750189009003637u64));
+return Err(ParseError::FalsifiedWhere(653325817133119558u64));
 }
 };
 let flags = {
@@ -30249,475 +30249,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12268471799124361536u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9620443865397033050u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3999778194527899420u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3933597635930613605u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5638313771627483501u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1105171745447487568u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(646997207007428137u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6351919260209655786u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(552953513858366451u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17332407069754301555u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14279133095670415871u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7347749870002275487u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10748847049349746078u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14220958138979104104u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17741760072369420240u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12223407337737822059u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6072942808717419822u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15560056883377919848u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7977419944699061624u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8323252642575612937u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11678443062630698028u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14832405617500840744u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1398536204687975789u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7336714497745271452u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4152914559762097168u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1152534299541961510u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5095757730543354711u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4668055697655854201u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6515957116553005671u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2017059186547121525u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11789784461021426583u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16022216421479351095u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15337804701822118436u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2750471357152633230u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8306706226429158303u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8033982984919675631u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7258731811542513498u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1283209893442238385u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1920187793319100008u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7474037925185307628u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4475730102931494177u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17780439059155340308u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6739127967943113267u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10170756778737993654u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14306133355400503306u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8902666087419502325u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10248009767256971850u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7807103255128873628u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7840596951976883698u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8004105446758774533u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12569316739694558801u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2967911718584065013u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7227788188777836434u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2859130192484418172u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12550558264664848853u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16954835414833850385u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1891774877762105457u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13705211812356460160u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5515497093089591991u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1328880024623199753u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6882184431082022206u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3998072683184925592u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(29850628954056690u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7279615132236188739u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17636172564439370608u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13863787293436782080u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16714498072262546943u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2157707350523277837u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15134222038433106385u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14950271805613481359u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5499566165243611472u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11265176092564100083u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14916894554939814670u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10473830801714814973u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5334325531610156978u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16975008930446149745u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(760820951392925727u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14363790737598139216u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4600414761378562541u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 _input.close_peek_context()?;
@@ -30732,7 +30732,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18313399323903636110u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 accum.push(next_elem)
@@ -30758,7 +30758,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15786118691017431738u64));
+return Err(ParseError::FalsifiedWhere(14238499412440345954u64));
 }
 };
 let flags = {
@@ -30794,7 +30794,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16165934354425559621u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 let arg1 = {
@@ -30802,7 +30802,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16399036514137665776u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 let arg2 = {
@@ -30810,7 +30810,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7931358881575056193u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 let arg3 = {
@@ -30818,7 +30818,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17863486658382945784u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30858,7 +30858,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11515797873012483658u64));
+return Err(ParseError::FalsifiedWhere(6803443871185192093u64));
 }
 };
 let size = match size_field {
@@ -30879,14 +30879,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8584109755265226714u64));
+return Err(ParseError::FalsifiedWhere(204361505388532862u64));
 }
 };
-try_sub!(x, 16u64, 11570281271401624317u64)
+try_sub!(x, 16u64, 8787536656121914522u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 734991270787736827u64)) as u64
+(try_sub!(size_field, 8u32, 14215639860155940137u64)) as u64
 }
 };
 let data = {
@@ -31059,7 +31059,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14687724984806605719u64));
+return Err(ParseError::FalsifiedWhere(18210277358428599455u64));
 }
 };
 let size = match size_field {
@@ -31080,14 +31080,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1378805635639824117u64));
+return Err(ParseError::FalsifiedWhere(9453259036882642818u64));
 }
 };
-try_sub!(x, 16u64, 8407356061009412694u64)
+try_sub!(x, 16u64, 11078254580983048780u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 18167425999583150549u64)) as u64
+(try_sub!(size_field, 8u32, 5584166819955891466u64)) as u64
 }
 };
 let data = {
@@ -31116,7 +31116,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6881565717664829242u64));
+return Err(ParseError::FalsifiedWhere(1845850007550452160u64));
 }
 };
 let size = match size_field {
@@ -31137,14 +31137,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13752480002470540422u64));
+return Err(ParseError::FalsifiedWhere(7779176190297216638u64));
 }
 };
-try_sub!(x, 16u64, 5534609128357633386u64)
+try_sub!(x, 16u64, 1591903561633999639u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 1644793874183523166u64)) as u64
+(try_sub!(size_field, 8u32, 11133239979815295357u64)) as u64
 }
 };
 let data = {
@@ -31301,7 +31301,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14539762430836305896u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 let rate = {
@@ -31372,7 +31372,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16625761205375889740u64));
+return Err(ParseError::FalsifiedWhere(6175893723851407495u64));
 }
 };
 let size = match size_field {
@@ -31393,14 +31393,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2662265345698212949u64));
+return Err(ParseError::FalsifiedWhere(4491050975676636472u64));
 }
 };
-try_sub!(x, 16u64, 8599210436172030522u64)
+try_sub!(x, 16u64, 10865781264025109219u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 16396082708135795071u64)) as u64
+(try_sub!(size_field, 8u32, 1275286460638129217u64)) as u64
 }
 };
 let data = {
@@ -31521,7 +31521,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3484767027554133518u64));
+return Err(ParseError::FalsifiedWhere(1125515999835788388u64));
 }
 };
 let size = match size_field {
@@ -31542,14 +31542,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15403934492100194569u64));
+return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
 }
 };
-try_sub!(x, 16u64, 2288772415159374970u64)
+try_sub!(x, 16u64, 9276145871181842621u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 5546123200965512193u64)) as u64
+(try_sub!(size_field, 8u32, 386759067598651566u64)) as u64
 }
 };
 let data = {
@@ -31684,7 +31684,7 @@ mpeg4_tkhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17888323854924040413u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 let reserved2 = {
@@ -31752,7 +31752,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279087434444973374u64));
+return Err(ParseError::FalsifiedWhere(9651999844283402729u64));
 }
 };
 let size = match size_field {
@@ -31773,14 +31773,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11074951631636946051u64));
+return Err(ParseError::FalsifiedWhere(4150962867603307131u64));
 }
 };
-try_sub!(x, 16u64, 13675295148592556047u64)
+try_sub!(x, 16u64, 4914981965961925407u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 9403121491749669432u64)) as u64
+(try_sub!(size_field, 8u32, 13527164188224560282u64)) as u64
 }
 };
 let data = {
@@ -31843,7 +31843,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4569970360394099475u64));
+return Err(ParseError::FalsifiedWhere(4792114144900142999u64));
 }
 };
 let size = match size_field {
@@ -31864,14 +31864,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9110520999974091875u64));
+return Err(ParseError::FalsifiedWhere(6091354260726402337u64));
 }
 };
-try_sub!(x, 16u64, 15433822888775103886u64)
+try_sub!(x, 16u64, 6485872802951288360u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 7981520858864097140u64)) as u64
+(try_sub!(size_field, 8u32, 240888096670347429u64)) as u64
 }
 };
 let data = {
@@ -31995,7 +31995,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 _input.close_peek_context()?;
@@ -32008,7 +32008,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 accum.push(next_elem)
@@ -32023,7 +32023,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 chars.clone()
@@ -32083,7 +32083,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 let language = {
@@ -32113,7 +32113,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16112061863928357291u64));
+return Err(ParseError::FalsifiedWhere(4851501206534868925u64));
 }
 };
 let size = match size_field {
@@ -32134,14 +32134,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12017601628070515145u64));
+return Err(ParseError::FalsifiedWhere(4255480819017852249u64));
 }
 };
-try_sub!(x, 16u64, 10708294527730390829u64)
+try_sub!(x, 16u64, 389354767835086292u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 17948395312093823900u64)) as u64
+(try_sub!(size_field, 8u32, 11936787736236307191u64)) as u64
 }
 };
 let data = {
@@ -32304,7 +32304,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7432469293302627017u64));
+return Err(ParseError::FalsifiedWhere(3216028881355025849u64));
 }
 };
 let size = match size_field {
@@ -32325,14 +32325,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13181260675040079306u64));
+return Err(ParseError::FalsifiedWhere(479680595494617916u64));
 }
 };
-try_sub!(x, 16u64, 7795160901559545235u64)
+try_sub!(x, 16u64, 12431089125438936538u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 7370180348639650351u64)) as u64
+(try_sub!(size_field, 8u32, 5215619712890029856u64)) as u64
 }
 };
 let data = {
@@ -32395,7 +32395,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3490919313637905107u64));
+return Err(ParseError::FalsifiedWhere(9066809807580136020u64));
 }
 };
 let size = match size_field {
@@ -32416,14 +32416,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9331389203258424019u64));
+return Err(ParseError::FalsifiedWhere(12347909352078849049u64));
 }
 };
-try_sub!(x, 16u64, 15311158871930328757u64)
+try_sub!(x, 16u64, 5999000939515818447u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 9851243859021733611u64)) as u64
+(try_sub!(size_field, 8u32, 3167775832820164678u64)) as u64
 }
 };
 let data = {
@@ -32827,7 +32827,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9892894478446917378u64));
+return Err(ParseError::FalsifiedWhere(10508718825232435214u64));
 }
 };
 let size = match size_field {
@@ -32848,14 +32848,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3585635225240718191u64));
+return Err(ParseError::FalsifiedWhere(13460389694602013078u64));
 }
 };
-try_sub!(x, 16u64, 237665900562449517u64)
+try_sub!(x, 16u64, 16678380679225161433u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 5357406925723651718u64)) as u64
+(try_sub!(size_field, 8u32, 7215050775822222282u64)) as u64
 }
 };
 let data = {
@@ -32944,7 +32944,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13751590285972774894u64));
+return Err(ParseError::FalsifiedWhere(11416999240256111317u64));
 }
 };
 let size = match size_field {
@@ -32965,14 +32965,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12552648416444111338u64));
+return Err(ParseError::FalsifiedWhere(13319962755558045565u64));
 }
 };
-try_sub!(x, 16u64, 10776065777346510440u64)
+try_sub!(x, 16u64, 1236150641026759388u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 12318721104400761032u64)) as u64
+(try_sub!(size_field, 8u32, 3743786174148899814u64)) as u64
 }
 };
 let data = {
@@ -33232,7 +33232,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 _input.close_peek_context()?;
@@ -33245,7 +33245,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 accum.push(next_elem)
@@ -33260,7 +33260,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 chars.clone()
@@ -33385,7 +33385,7 @@ mpeg4_iref_data_single_item_reference::large(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -33470,7 +33470,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 let extent_count = {
@@ -33510,7 +33510,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11582380281701370059u64));
+return Err(ParseError::FalsifiedWhere(4714328060581312491u64));
 }
 };
 let size = match size_field {
@@ -33531,14 +33531,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7228157205966134869u64));
+return Err(ParseError::FalsifiedWhere(1886731551318106143u64));
 }
 };
-try_sub!(x, 16u64, 9924059786910440358u64)
+try_sub!(x, 16u64, 6789861264798225044u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 3320665455366264189u64)) as u64
+(try_sub!(size_field, 8u32, 12652804269632162478u64)) as u64
 }
 };
 let data = {
@@ -33625,7 +33625,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7274029685341305701u64));
+return Err(ParseError::FalsifiedWhere(2250992723793132616u64));
 }
 };
 let size = match size_field {
@@ -33646,14 +33646,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16051783775494465147u64));
+return Err(ParseError::FalsifiedWhere(13302435931871038516u64));
 }
 };
-try_sub!(x, 16u64, 5892114170581446733u64)
+try_sub!(x, 16u64, 12914822120096438372u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 3673300442962989464u64)) as u64
+(try_sub!(size_field, 8u32, 18134882366868794706u64)) as u64
 }
 };
 let data = {
@@ -33759,7 +33759,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33781,7 +33781,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 let extent_length = match length_size {
@@ -33803,7 +33803,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33825,7 +33825,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17983075411320920965u64));
+return Err(ParseError::FalsifiedWhere(6192442272039337687u64));
 }
 };
 let size = match size_field {
@@ -33846,14 +33846,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7023661717588102849u64));
+return Err(ParseError::FalsifiedWhere(1371641324337791042u64));
 }
 };
-try_sub!(x, 16u64, 9960855096836829935u64)
+try_sub!(x, 16u64, 9966940320814099155u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 8970999014112821604u64)) as u64
+(try_sub!(size_field, 8u32, 7155653122005708978u64)) as u64
 }
 };
 let data = {
@@ -33903,7 +33903,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(218475477370319322u64));
+return Err(ParseError::FalsifiedWhere(15519482928753245836u64));
 }
 };
 let size = match size_field {
@@ -33924,14 +33924,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18357658168615546095u64));
+return Err(ParseError::FalsifiedWhere(7180361712816552798u64));
 }
 };
-try_sub!(x, 16u64, 15859964085544252343u64)
+try_sub!(x, 16u64, 7324022130208344343u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 17089130856162883194u64)) as u64
+(try_sub!(size_field, 8u32, 17920584887603040596u64)) as u64
 }
 };
 let data = {
@@ -33981,7 +33981,7 @@ let n = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(653325817133119558u64));
+return Err(ParseError::FalsifiedWhere(3289883751054141021u64));
 }
 };
 let size = match size_field {
@@ -34002,14 +34002,14 @@ x >= 16u64
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3349032559334020401u64));
+return Err(ParseError::FalsifiedWhere(7245983875345631298u64));
 }
 };
-try_sub!(x, 16u64, 8350850950759220429u64)
+try_sub!(x, 16u64, 11349426438005611188u64)
 },
 
 _ => {
-(try_sub!(size_field, 8u32, 13537165373980795457u64)) as u64
+(try_sub!(size_field, 8u32, 5673845796627816005u64)) as u64
 }
 };
 let data = {
@@ -34106,7 +34106,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 _input.close_peek_context()?;
@@ -34119,7 +34119,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 };
 accum.push(next_elem)
@@ -34134,7 +34134,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 };
 chars.clone()
@@ -34156,7 +34156,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 _input.close_peek_context()?;
@@ -34169,7 +34169,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 accum.push(next_elem)
@@ -34184,7 +34184,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 chars.clone()
@@ -34206,7 +34206,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 _input.close_peek_context()?;
@@ -34219,7 +34219,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 };
 accum.push(next_elem)
@@ -34234,7 +34234,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 chars.clone()
@@ -34280,7 +34280,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 };
 _input.close_peek_context()?;
@@ -34293,7 +34293,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3011460078285478248u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 };
 accum.push(next_elem)
@@ -34308,7 +34308,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 chars.clone()
@@ -34355,7 +34355,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4614223265245060097u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 };
 _input.close_peek_context()?;
@@ -34368,7 +34368,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2858990937242709991u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 };
 accum.push(next_elem)
@@ -34383,7 +34383,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13162270726566423196u64));
+return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
 };
 chars.clone()
@@ -34410,7 +34410,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(16815582401460622228u64));
 }
 };
 _input.close_peek_context()?;
@@ -34423,7 +34423,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 };
 accum.push(next_elem)
@@ -34438,7 +34438,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(6170312119912404925u64));
 }
 };
 chars.clone()
@@ -34453,7 +34453,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 }
 };
 let marker = {
@@ -34461,7 +34461,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(10784354724006973021u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34616,11 +34616,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(7814984350356971595u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34741,11 +34741,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(8834940284440365505u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34761,7 +34761,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 }
 };
@@ -34867,11 +34867,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(15666641356442195125u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34896,7 +34896,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(8003682420837492218u64));
 }
 };
 let marker = {
@@ -34904,7 +34904,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(6672851768458061412u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34927,11 +34927,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(5694490278249537684u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(17498679062468273557u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34949,7 +34949,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(15004954221525838533u64));
 }
 })
 }
@@ -35047,11 +35047,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(9104412661124805519u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(13731807471966330507u64));
 };
 _input.close_peek_context()?;
 ret
@@ -35164,7 +35164,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(13391927636850586680u64));
 }
 })
 }
@@ -35230,11 +35230,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(5585407796242218698u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(7581188615734068888u64));
 };
 _input.close_peek_context()?;
 ret
@@ -35307,7 +35307,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(401211890982280023u64));
 }
 })
 }
@@ -35412,11 +35412,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(8351383702383589488u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(16926640000337048185u64));
 };
 _input.close_peek_context()?;
 ret
@@ -35444,7 +35444,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(14305107858950733127u64));
 }
 };
 let marker = {
@@ -35452,7 +35452,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(14247107068446105269u64));
 }
 };
 jpeg_soi { marker }
@@ -35462,7 +35462,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 11669649807369914251u64)) as usize;
+let sz = (try_sub!(length, 2u16, 14591018267292443527u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_dnl_data(_input))?;
 _input.end_slice()?;
@@ -35571,11 +35571,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(5774748803588796814u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(14962551735998681614u64));
+return Err(ParseError::ExcludedBranch(12564492979960735543u64));
 };
 _input.close_peek_context()?;
 ret
@@ -35603,7 +35603,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2007599397777734421u64));
+return Err(ParseError::ExcludedBranch(2458638837424585123u64));
 }
 };
 let marker = {
@@ -35611,7 +35611,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18069850277258932991u64));
+return Err(ParseError::ExcludedBranch(15528204713822084965u64));
 }
 };
 jpeg_soi { marker }
@@ -35621,7 +35621,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 8880661182590738257u64)) as usize;
+let sz = (try_sub!(length, 2u16, 4762692522317026931u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sos_data(_input))?;
 _input.end_slice()?;
@@ -35774,13 +35774,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(180881308211696508u64));
+return Err(ParseError::ExcludedBranch(5036225068787254506u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(17887022250737672487u64));
 }
 };
 _input.close_peek_context()?;
@@ -35885,13 +35885,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(2717347623714797477u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(14329490458809437922u64));
 }
 };
 _input.close_peek_context()?;
@@ -35945,7 +35945,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(5951796733396995374u64));
 }
 })
 }
@@ -35965,7 +35965,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(9017777487070956152u64));
 }
 };
 _input.close_peek_context()?;
@@ -35978,7 +35978,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(17143332765592749771u64));
 }
 },
 
@@ -35989,7 +35989,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(16633361259545357470u64));
 }
 };
 let arg1 = {
@@ -35997,7 +35997,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(4961333973376272081u64));
 }
 };
 (arg0, arg1)
@@ -36006,7 +36006,7 @@ return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(9297096232552071396u64));
 }
 })
 }
@@ -36018,7 +36018,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(1229687945426775554u64));
 }
 };
 let marker = {
@@ -36026,7 +36026,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(4499173747519010439u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -36039,7 +36039,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(17513597814045338510u64));
 }
 };
 let marker = {
@@ -36047,7 +36047,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(15210683227347033840u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -36060,7 +36060,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(6306371068092156341u64));
 }
 };
 let marker = {
@@ -36068,7 +36068,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(15696920854873538891u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -36081,7 +36081,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(993859343948680132u64));
 }
 };
 let marker = {
@@ -36089,7 +36089,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(7852866313283977038u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -36102,7 +36102,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(17412301555100482773u64));
 }
 };
 let marker = {
@@ -36110,7 +36110,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(11771102050369816529u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -36123,7 +36123,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(7430518319668180666u64));
 }
 };
 let marker = {
@@ -36131,7 +36131,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(3956329350796114455u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -36144,7 +36144,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(6012043787430626716u64));
 }
 };
 let marker = {
@@ -36152,7 +36152,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(1811260380837340660u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -36165,7 +36165,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(13690822156691817534u64));
 }
 };
 let marker = {
@@ -36173,7 +36173,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(15351470566288012190u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -36190,7 +36190,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16948595091237008543u64));
+return Err(ParseError::FalsifiedWhere(5106576817547676439u64));
 }
 };
 let image_components = {
@@ -36210,7 +36210,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(108256050843388088u64));
+return Err(ParseError::FalsifiedWhere(4525347629262981459u64));
 }
 };
 let end_spectral_selection = {
@@ -36222,7 +36222,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7834223795690054720u64));
+return Err(ParseError::FalsifiedWhere(11650736996539157742u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -36259,7 +36259,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(787921071240225899u64));
+return Err(ParseError::FalsifiedWhere(15492181779975979464u64));
 })
 }
 
@@ -36277,7 +36277,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11557974043504662535u64));
+return Err(ParseError::FalsifiedWhere(492201226147656060u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -36431,13 +36431,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(4184669659198398607u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(6676193079867272118u64));
 }
 };
 _input.close_peek_context()?;
@@ -36501,7 +36501,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(16245312356063952040u64));
 }
 };
 let marker = {
@@ -36509,7 +36509,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(5879426551874081691u64));
 }
 };
 jpeg_soi { marker }
@@ -36519,7 +36519,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 691490157317212239u64)) as usize;
+let sz = (try_sub!(length, 2u16, 9630069758457681762u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36536,7 +36536,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(911245180749144930u64));
 }
 };
 let marker = {
@@ -36544,7 +36544,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(9560785337770683878u64));
 }
 };
 jpeg_soi { marker }
@@ -36554,7 +36554,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 10719628102612994677u64)) as usize;
+let sz = (try_sub!(length, 2u16, 908377722732597655u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36571,7 +36571,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(16257426123248714312u64));
 }
 };
 let marker = {
@@ -36579,7 +36579,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(6556536443142684260u64));
 }
 };
 jpeg_soi { marker }
@@ -36589,7 +36589,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 13685962128001446815u64)) as usize;
+let sz = (try_sub!(length, 2u16, 3203034260088513018u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36606,7 +36606,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(7909377929284215519u64));
 }
 };
 let marker = {
@@ -36614,7 +36614,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(2230067024825534876u64));
 }
 };
 jpeg_soi { marker }
@@ -36624,7 +36624,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 7538966935051243003u64)) as usize;
+let sz = (try_sub!(length, 2u16, 14677505873656710393u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36641,7 +36641,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(17782005954141641078u64));
 }
 };
 let marker = {
@@ -36649,7 +36649,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(2415310762612204136u64));
 }
 };
 jpeg_soi { marker }
@@ -36659,7 +36659,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 4867798537713738914u64)) as usize;
+let sz = (try_sub!(length, 2u16, 10102114574336663273u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36676,7 +36676,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(13378731036149842651u64));
 }
 };
 let marker = {
@@ -36684,7 +36684,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(4998947144391025962u64));
 }
 };
 jpeg_soi { marker }
@@ -36694,7 +36694,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 11266387855511437693u64)) as usize;
+let sz = (try_sub!(length, 2u16, 4386762582485017400u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36711,7 +36711,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(18323580627629194988u64));
 }
 };
 let marker = {
@@ -36719,7 +36719,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(8398220683950402292u64));
 }
 };
 jpeg_soi { marker }
@@ -36729,7 +36729,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 11452033436843896773u64)) as usize;
+let sz = (try_sub!(length, 2u16, 8893850231119365992u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36746,7 +36746,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(10158795814066490108u64));
 }
 };
 let marker = {
@@ -36754,7 +36754,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(6202401634823413968u64));
 }
 };
 jpeg_soi { marker }
@@ -36764,7 +36764,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 8138544351856664662u64)) as usize;
+let sz = (try_sub!(length, 2u16, 7659860344311718435u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36781,7 +36781,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(9413945447233525372u64));
 }
 };
 let marker = {
@@ -36789,7 +36789,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4491050975676636472u64));
+return Err(ParseError::ExcludedBranch(2594037435477934947u64));
 }
 };
 jpeg_soi { marker }
@@ -36799,7 +36799,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 12696272221194189133u64)) as usize;
+let sz = (try_sub!(length, 2u16, 11052099086134529863u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36816,7 +36816,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(10883838419082391037u64));
 }
 };
 let marker = {
@@ -36824,7 +36824,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10865781264025109219u64));
+return Err(ParseError::ExcludedBranch(8767440817651198209u64));
 }
 };
 jpeg_soi { marker }
@@ -36834,7 +36834,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 3995820927126919547u64)) as usize;
+let sz = (try_sub!(length, 2u16, 1079884235207081886u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36851,7 +36851,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1125515999835788388u64));
+return Err(ParseError::ExcludedBranch(15031361043689727364u64));
 }
 };
 let marker = {
@@ -36859,7 +36859,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6928743980636918648u64));
+return Err(ParseError::ExcludedBranch(3665457059434240011u64));
 }
 };
 jpeg_soi { marker }
@@ -36869,7 +36869,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 9149418055219508197u64)) as usize;
+let sz = (try_sub!(length, 2u16, 980800817911480223u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36886,7 +36886,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(1735713163260634712u64));
 }
 };
 let marker = {
@@ -36894,7 +36894,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(13908545457729206368u64));
 }
 };
 jpeg_soi { marker }
@@ -36904,7 +36904,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 8000269442706245049u64)) as usize;
+let sz = (try_sub!(length, 2u16, 9042484249406774160u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36921,7 +36921,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(13880582501981059629u64));
 }
 };
 let marker = {
@@ -36929,7 +36929,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(17752550700547394042u64));
 }
 };
 jpeg_soi { marker }
@@ -36939,7 +36939,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 4100106362216887809u64)) as usize;
+let sz = (try_sub!(length, 2u16, 7801539417877429212u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_sof_data(_input))?;
 _input.end_slice()?;
@@ -36959,7 +36959,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4150962867603307131u64));
+return Err(ParseError::FalsifiedWhere(18324883535756628920u64));
 }
 };
 let num_lines = {
@@ -36978,7 +36978,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1180075112413234847u64));
+return Err(ParseError::FalsifiedWhere(7339549245543740748u64));
 }
 };
 let num_image_components = {
@@ -36990,7 +36990,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4914981965961925407u64));
+return Err(ParseError::FalsifiedWhere(5953756951362336647u64));
 }
 };
 let image_components = {
@@ -37022,7 +37022,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4792114144900142999u64));
+return Err(ParseError::FalsifiedWhere(14692086178556819015u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -37036,7 +37036,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(7502492016619819627u64));
 }
 };
 let marker = {
@@ -37044,7 +37044,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(12030034725301975483u64));
 }
 };
 jpeg_soi { marker }
@@ -37054,7 +37054,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 3198904588321530108u64)) as usize;
+let sz = (try_sub!(length, 2u16, 14931240509007516758u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37099,7 +37099,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(14915338045287647231u64));
 }
 };
 let marker = {
@@ -37107,7 +37107,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(6738890762297368572u64));
 }
 };
 jpeg_soi { marker }
@@ -37117,7 +37117,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 8674930063339641954u64)) as usize;
+let sz = (try_sub!(length, 2u16, 11328034188734904930u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_dht_data(_input))?;
 _input.end_slice()?;
@@ -37134,7 +37134,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(3498052821818989282u64));
 }
 };
 let marker = {
@@ -37142,7 +37142,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(4187466548052508646u64));
 }
 };
 jpeg_soi { marker }
@@ -37152,7 +37152,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 15244023661753025012u64)) as usize;
+let sz = (try_sub!(length, 2u16, 1338347005175300217u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_dac_data(_input))?;
 _input.end_slice()?;
@@ -37169,7 +37169,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(1416060795925087347u64));
 }
 };
 let marker = {
@@ -37177,7 +37177,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(13565659225568059240u64));
 }
 };
 jpeg_soi { marker }
@@ -37187,7 +37187,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 11029695522295027332u64)) as usize;
+let sz = (try_sub!(length, 2u16, 15432825464810477099u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_dri_data(_input))?;
 _input.end_slice()?;
@@ -37204,7 +37204,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(15902706221875006189u64));
 }
 };
 let marker = {
@@ -37212,7 +37212,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(5840767233129976347u64));
 }
 };
 jpeg_soi { marker }
@@ -37222,7 +37222,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 1560031033762626303u64)) as usize;
+let sz = (try_sub!(length, 2u16, 8987822076696059625u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_app0_data(_input))?;
 _input.end_slice()?;
@@ -37239,7 +37239,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(12840642658890892191u64));
 }
 };
 let marker = {
@@ -37247,7 +37247,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(442655488909159215u64));
 }
 };
 jpeg_soi { marker }
@@ -37257,7 +37257,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 2452372056966650770u64)) as usize;
+let sz = (try_sub!(length, 2u16, 10078755145706786000u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder_jpeg_app1_data(_input))?;
 _input.end_slice()?;
@@ -37274,7 +37274,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(17601922150601900249u64));
 }
 };
 let marker = {
@@ -37282,7 +37282,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(2839943779679895959u64));
 }
 };
 jpeg_soi { marker }
@@ -37292,7 +37292,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 7866350329714952610u64)) as usize;
+let sz = (try_sub!(length, 2u16, 1977899765720151190u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37333,7 +37333,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(5073915066843158394u64));
 }
 };
 let marker = {
@@ -37341,7 +37341,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(1482969657487306069u64));
 }
 };
 jpeg_soi { marker }
@@ -37351,7 +37351,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 12954594173805448799u64)) as usize;
+let sz = (try_sub!(length, 2u16, 7343323033370781545u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37392,7 +37392,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(2390407603084061404u64));
 }
 };
 let marker = {
@@ -37400,7 +37400,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(3892681100241033912u64));
 }
 };
 jpeg_soi { marker }
@@ -37410,7 +37410,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 9573183374517388194u64)) as usize;
+let sz = (try_sub!(length, 2u16, 12890902517277365935u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37451,7 +37451,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(17463401026221536662u64));
 }
 };
 let marker = {
@@ -37459,7 +37459,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(17470489346306244825u64));
 }
 };
 jpeg_soi { marker }
@@ -37469,7 +37469,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 15327783809571612236u64)) as usize;
+let sz = (try_sub!(length, 2u16, 13049534979177835905u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37510,7 +37510,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(10207970593647688212u64));
 }
 };
 let marker = {
@@ -37518,7 +37518,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(2439655998303138725u64));
 }
 };
 jpeg_soi { marker }
@@ -37528,7 +37528,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 9684775926499943714u64)) as usize;
+let sz = (try_sub!(length, 2u16, 9011855507994367971u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37569,7 +37569,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(16771518036020556745u64));
 }
 };
 let marker = {
@@ -37577,7 +37577,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(9172385683693880215u64));
 }
 };
 jpeg_soi { marker }
@@ -37587,7 +37587,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 5912167672739605892u64)) as usize;
+let sz = (try_sub!(length, 2u16, 14796083725261108356u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37628,7 +37628,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(9783476535448514495u64));
 }
 };
 let marker = {
@@ -37636,7 +37636,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(13366613020386816437u64));
 }
 };
 jpeg_soi { marker }
@@ -37646,7 +37646,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 1998097826508262195u64)) as usize;
+let sz = (try_sub!(length, 2u16, 2879885114680241844u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37687,7 +37687,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(17709848189999420033u64));
 }
 };
 let marker = {
@@ -37695,7 +37695,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(861177569376286305u64));
 }
 };
 jpeg_soi { marker }
@@ -37705,7 +37705,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 16370266426490485062u64)) as usize;
+let sz = (try_sub!(length, 2u16, 14009314771729697611u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37746,7 +37746,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(78525112715042575u64));
 }
 };
 let marker = {
@@ -37754,7 +37754,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(1406123536660390967u64));
 }
 };
 jpeg_soi { marker }
@@ -37764,7 +37764,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 14923902544344582218u64)) as usize;
+let sz = (try_sub!(length, 2u16, 10973085168168570837u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37805,7 +37805,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(442298306171793292u64));
 }
 };
 let marker = {
@@ -37813,7 +37813,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(17011692629048855226u64));
 }
 };
 jpeg_soi { marker }
@@ -37823,7 +37823,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 9033025935232855564u64)) as usize;
+let sz = (try_sub!(length, 2u16, 10603707580403307601u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37864,7 +37864,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(11581556942826879391u64));
 }
 };
 let marker = {
@@ -37872,7 +37872,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(16835814101449390384u64));
 }
 };
 jpeg_soi { marker }
@@ -37882,7 +37882,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 6569230515699692699u64)) as usize;
+let sz = (try_sub!(length, 2u16, 18065118697073160549u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37923,7 +37923,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(11490227106586037904u64));
 }
 };
 let marker = {
@@ -37931,7 +37931,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(11546612139401634046u64));
 }
 };
 jpeg_soi { marker }
@@ -37941,7 +37941,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 15682767706885925172u64)) as usize;
+let sz = (try_sub!(length, 2u16, 10686389193617118447u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -37982,7 +37982,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(2668372298125476994u64));
 }
 };
 let marker = {
@@ -37990,7 +37990,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(8711860914967536361u64));
 }
 };
 jpeg_soi { marker }
@@ -38000,7 +38000,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 2946338368865429585u64)) as usize;
+let sz = (try_sub!(length, 2u16, 16128388243093908143u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -38041,7 +38041,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(3351623470081149859u64));
 }
 };
 let marker = {
@@ -38049,7 +38049,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(7829120241066767201u64));
 }
 };
 jpeg_soi { marker }
@@ -38059,7 +38059,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 466150863659326234u64)) as usize;
+let sz = (try_sub!(length, 2u16, 2818918064991511645u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -38100,7 +38100,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(8826412536775492713u64));
 }
 };
 let marker = {
@@ -38108,7 +38108,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(8421564363717344735u64));
 }
 };
 jpeg_soi { marker }
@@ -38118,7 +38118,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 11988854374464943326u64)) as usize;
+let sz = (try_sub!(length, 2u16, 14082539304789607227u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -38170,7 +38170,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(524960330478761274u64));
 }
 };
 _input.close_peek_context()?;
@@ -38183,7 +38183,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(7346034396892144149u64));
 }
 };
 accum.push(next_elem)
@@ -38198,7 +38198,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(5341415110277143404u64));
 }
 };
 chars.clone()
@@ -38258,7 +38258,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(735639925811547395u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -38314,7 +38314,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(15328359768889041340u64));
 }
 };
 _input.close_peek_context()?;
@@ -38327,7 +38327,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(2722981460854279337u64));
 }
 };
 accum.push(next_elem)
@@ -38342,7 +38342,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(4650805437725306096u64));
 }
 };
 chars.clone()
@@ -38403,7 +38403,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2157749958308397018u64));
+return Err(ParseError::FalsifiedWhere(2426876142648996271u64));
 }
 };
 let density_x = {
@@ -38418,7 +38418,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7324022130208344343u64));
+return Err(ParseError::FalsifiedWhere(13916672972508302504u64));
 }
 };
 let density_y = {
@@ -38433,7 +38433,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3289883751054141021u64));
+return Err(ParseError::FalsifiedWhere(8104070098547683373u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -38495,7 +38495,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7245983875345631298u64));
+return Err(ParseError::FalsifiedWhere(7150821070449530689u64));
 })
 }
 
@@ -38550,7 +38550,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9556673179043043550u64));
+return Err(ParseError::FalsifiedWhere(16792022214932688222u64));
 })
 }
 
@@ -38585,7 +38585,7 @@ jpeg_dqt_data_elements::Shorts(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(12811452211510912385u64));
 }
 })
 }
@@ -38608,7 +38608,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8635718010611311692u64));
+return Err(ParseError::ExcludedBranch(15644741688453761072u64));
 }
 };
 _input.close_peek_context()?;
@@ -38621,7 +38621,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(5865290863153799026u64));
 }
 };
 accum.push(next_elem)
@@ -38636,7 +38636,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(6699256144472699879u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38661,7 +38661,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(312749185060945224u64));
 }
 };
 _input.close_peek_context()?;
@@ -38674,7 +38674,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(9628672345297411642u64));
 }
 };
 accum.push(next_elem)
@@ -38689,7 +38689,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(13462840938356791495u64));
 }
 };
 chars.clone()
@@ -38780,7 +38780,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(9967338984181666219u64));
 }
 };
 _input.close_peek_context()?;
@@ -38808,7 +38808,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(3018729892925017799u64));
 }
 };
 accum.push(next_elem)
@@ -38841,7 +38841,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(13528164673823230265u64));
 }
 };
 accum.push(next_elem)
@@ -38872,7 +38872,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10796441316268123402u64));
+return Err(ParseError::ExcludedBranch(994304737797706717u64));
 }
 };
 _input.close_peek_context()?;
@@ -38885,7 +38885,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11138707079467673507u64));
+return Err(ParseError::ExcludedBranch(12319122127576782714u64));
 }
 };
 accum.push(next_elem)
@@ -38900,7 +38900,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4276041640044341942u64));
+return Err(ParseError::ExcludedBranch(17092636975179133991u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38925,7 +38925,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13415341611905239200u64));
+return Err(ParseError::ExcludedBranch(16935566314606953383u64));
 }
 };
 _input.close_peek_context()?;
@@ -38938,7 +38938,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8346764656077042415u64));
+return Err(ParseError::ExcludedBranch(18264635962689150795u64));
 }
 };
 accum.push(next_elem)
@@ -38953,7 +38953,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18414062761433945694u64));
+return Err(ParseError::ExcludedBranch(8676255878442322888u64));
 }
 };
 chars.clone()
@@ -38969,7 +38969,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16815582401460622228u64));
+return Err(ParseError::ExcludedBranch(3309548119367861193u64));
 }
 };
 let arg1 = {
@@ -38977,7 +38977,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497430786761265101u64));
+return Err(ParseError::ExcludedBranch(3068901538290016094u64));
 }
 };
 let arg2 = {
@@ -38985,7 +38985,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6170312119912404925u64));
+return Err(ParseError::ExcludedBranch(11197982424888761982u64));
 }
 };
 (arg0, arg1, arg2)
@@ -39035,7 +39035,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12018148152002987023u64));
+return Err(ParseError::ExcludedBranch(5446555884177519132u64));
 }
 }
 },
@@ -39045,7 +39045,7 @@ return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10784354724006973021u64));
+return Err(ParseError::ExcludedBranch(2428259595545039160u64));
 }
 };
 _input.close_peek_context()?;
@@ -39064,7 +39064,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9362083066906141802u64));
+return Err(ParseError::ExcludedBranch(8223692135093295857u64));
 }
 })
 }
@@ -39076,7 +39076,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7814984350356971595u64));
+return Err(ParseError::ExcludedBranch(12082058459321693440u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -39100,7 +39100,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8834940284440365505u64));
+return Err(ParseError::ExcludedBranch(4686427042726614411u64));
 }
 }
 },
@@ -39110,7 +39110,7 @@ return Err(ParseError::ExcludedBranch(8834940284440365505u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11138532932579103751u64));
+return Err(ParseError::ExcludedBranch(11104995522974580490u64));
 }
 };
 _input.close_peek_context()?;
@@ -39127,7 +39127,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1640368834587091796u64));
+return Err(ParseError::ExcludedBranch(245966770182555275u64));
 }
 }
 };
@@ -39152,11 +39152,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14970223179097094798u64));
+return Err(ParseError::ExcludedBranch(2790122032025671138u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15666641356442195125u64));
+return Err(ParseError::ExcludedBranch(15098100508856297712u64));
 };
 _input.close_peek_context()?;
 ret
@@ -39174,7 +39174,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8003682420837492218u64));
+return Err(ParseError::ExcludedBranch(17711631961369020837u64));
 }
 })
 }
@@ -39186,7 +39186,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6672851768458061412u64));
+return Err(ParseError::ExcludedBranch(2416795036659608320u64));
 }
 };
 let label = {
@@ -39194,7 +39194,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5694490278249537684u64));
+return Err(ParseError::ExcludedBranch(4335755818058457522u64));
 }
 };
 let block_size = {
@@ -39202,7 +39202,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17498679062468273557u64));
+return Err(ParseError::ExcludedBranch(178649755407796904u64));
 }
 };
 let identifier = {
@@ -39230,7 +39230,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15004954221525838533u64));
+return Err(ParseError::ExcludedBranch(573471190524706431u64));
 }
 };
 _input.close_peek_context()?;
@@ -39257,7 +39257,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9104412661124805519u64));
+return Err(ParseError::ExcludedBranch(9017820158197125088u64));
 }
 };
 let label = {
@@ -39265,7 +39265,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13731807471966330507u64));
+return Err(ParseError::ExcludedBranch(11450505480728240460u64));
 }
 };
 let comment_data = {
@@ -39284,7 +39284,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13391927636850586680u64));
+return Err(ParseError::ExcludedBranch(16490294047258469799u64));
 }
 };
 _input.close_peek_context()?;
@@ -39311,7 +39311,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5585407796242218698u64));
+return Err(ParseError::ExcludedBranch(975793258732983280u64));
 }
 };
 let data = {
@@ -39331,7 +39331,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7581188615734068888u64));
+return Err(ParseError::ExcludedBranch(6319195883722228839u64));
 })
 }
 
@@ -39342,7 +39342,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(401211890982280023u64));
+return Err(ParseError::ExcludedBranch(11502107869143867647u64));
 }
 };
 let label = {
@@ -39350,7 +39350,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8351383702383589488u64));
+return Err(ParseError::ExcludedBranch(16564261354148712925u64));
 }
 };
 let block_size = {
@@ -39358,7 +39358,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16926640000337048185u64));
+return Err(ParseError::ExcludedBranch(8947889938129792058u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -39386,7 +39386,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14305107858950733127u64));
+return Err(ParseError::ExcludedBranch(16116987267479777053u64));
 }
 };
 _input.close_peek_context()?;
@@ -39405,7 +39405,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14247107068446105269u64));
+return Err(ParseError::ExcludedBranch(613879908735287366u64));
 }
 })
 }
@@ -39434,7 +39434,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5774748803588796814u64));
+return Err(ParseError::ExcludedBranch(4807664655303095507u64));
 }
 };
 let label = {
@@ -39442,7 +39442,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12564492979960735543u64));
+return Err(ParseError::ExcludedBranch(6778903027847917540u64));
 }
 };
 let block_size = {
@@ -39450,7 +39450,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2458638837424585123u64));
+return Err(ParseError::ExcludedBranch(16307479393156323225u64));
 }
 };
 let text_grid_left_position = {
@@ -39489,7 +39489,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15528204713822084965u64));
+return Err(ParseError::ExcludedBranch(4774768965999570923u64));
 }
 };
 _input.close_peek_context()?;
@@ -39516,7 +39516,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5036225068787254506u64));
+return Err(ParseError::ExcludedBranch(14955153132140369673u64));
 }
 };
 let image_left_position = {
@@ -39566,7 +39566,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17887022250737672487u64));
+return Err(ParseError::ExcludedBranch(12846767415020372796u64));
 }
 };
 _input.close_peek_context()?;
@@ -39698,55 +39698,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2717347623714797477u64));
+return Err(ParseError::ExcludedBranch(13527062090175935553u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14329490458809437922u64));
+return Err(ParseError::ExcludedBranch(120035312340121180u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5951796733396995374u64));
+return Err(ParseError::ExcludedBranch(5738196219751013833u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17143332765592749771u64));
+return Err(ParseError::ExcludedBranch(14171883391413472666u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16633361259545357470u64));
+return Err(ParseError::ExcludedBranch(7478270660525278311u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4961333973376272081u64));
+return Err(ParseError::ExcludedBranch(5824218424181195143u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9017777487070956152u64));
+return Err(ParseError::ExcludedBranch(9437641957788019042u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9297096232552071396u64));
+return Err(ParseError::ExcludedBranch(4940394392139144734u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1229687945426775554u64));
+return Err(ParseError::ExcludedBranch(12024157739591198927u64));
 }
 };
 _input.close_peek_context()?;
@@ -39761,7 +39761,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4499173747519010439u64));
+return Err(ParseError::ExcludedBranch(7547312875733746609u64));
 }
 };
 accum.push(next_elem)
@@ -39775,7 +39775,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17513597814045338510u64));
+return Err(ParseError::ExcludedBranch(10783666632379725831u64));
 }
 };
 (arg0, arg1)
@@ -39803,7 +39803,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15210683227347033840u64));
+return Err(ParseError::ExcludedBranch(13118946503355303229u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39836,7 +39836,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6306371068092156341u64));
+return Err(ParseError::FalsifiedWhere(17549176527789548176u64));
 }
 };
 let num_image_components = {
@@ -39848,7 +39848,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15696920854873538891u64));
+return Err(ParseError::FalsifiedWhere(18285673269059348490u64));
 }
 };
 let image_components = {
@@ -39871,7 +39871,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(993859343948680132u64));
+return Err(ParseError::ExcludedBranch(7529752638086996781u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39893,7 +39893,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7852866313283977038u64));
+return Err(ParseError::FalsifiedWhere(4826404174852459386u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39907,7 +39907,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17412301555100482773u64));
+return Err(ParseError::ExcludedBranch(10045239169094482380u64));
 }
 };
 let marker = {
@@ -39915,7 +39915,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11771102050369816529u64));
+return Err(ParseError::ExcludedBranch(4080133015542019800u64));
 }
 };
 jpeg_soi { marker }
@@ -39925,7 +39925,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 7620281735474506525u64)) as usize;
+let sz = (try_sub!(length, 2u16, 11072034178440885507u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
@@ -39966,7 +39966,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7430518319668180666u64));
+return Err(ParseError::ExcludedBranch(4729941616255366734u64));
 }
 };
 let marker = {
@@ -39974,7 +39974,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3956329350796114455u64));
+return Err(ParseError::ExcludedBranch(3522106292104854962u64));
 }
 };
 jpeg_soi { marker }
@@ -39984,7 +39984,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 11599300513837427027u64)) as usize;
+let sz = (try_sub!(length, 2u16, 4608405370414018463u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder486(_input))?;
 _input.end_slice()?;
@@ -40012,7 +40012,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6012043787430626716u64));
+return Err(ParseError::FalsifiedWhere(5491104811082181244u64));
 }
 };
 let num_image_components = {
@@ -40024,7 +40024,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1811260380837340660u64));
+return Err(ParseError::FalsifiedWhere(16727911175967841719u64));
 }
 };
 let image_components = {
@@ -40046,7 +40046,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13690822156691817534u64));
+return Err(ParseError::ExcludedBranch(1778538969525065627u64));
 }
 };
 let marker = {
@@ -40054,7 +40054,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15351470566288012190u64));
+return Err(ParseError::ExcludedBranch(11538440062253040607u64));
 }
 };
 jpeg_soi { marker }
@@ -40064,7 +40064,7 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let data = {
-let sz = (try_sub!(length, 2u16, 950046280632689001u64)) as usize;
+let sz = (try_sub!(length, 2u16, 4418518334087228745u64)) as usize;
 _input.start_slice(sz)?;
 let ret = (Decoder488(_input))?;
 _input.end_slice()?;
@@ -40089,7 +40089,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5106576817547676439u64));
+return Err(ParseError::FalsifiedWhere(3866515176381381424u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index a651f17..c068a8e 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1148,7 +1148,15 @@ fn embed_expr(expr: &GTExpr, info: ExprInfo) -> RustExpr {
                 Arith::BitOr => InfixOperator::BitOr,
                 Arith::BoolAnd => InfixOperator::BoolAnd,
                 Arith::BoolOr => InfixOperator::BoolOr,
-                Arith::Add => InfixOperator::Add,
+                Arith::Add => {
+                    alt.replace(model::try_arith(
+                        "checked_add",
+                        x.clone(),
+                        y.clone(),
+                        get_trace(&()),
+                    ));
+                    InfixOperator::Add
+                }
                 Arith::Sub => {
                     alt.replace(RustExpr::local("try_sub!").call_with([
                         x.clone(),
@@ -1157,13 +1165,31 @@ fn embed_expr(expr: &GTExpr, info: ExprInfo) -> RustExpr {
                     ]));
                     InfixOperator::Sub
                 }
-                Arith::Mul => InfixOperator::Mul,
+                Arith::Mul => {
+                    alt.replace(model::try_arith(
+                        "checked_mul",
+                        x.clone(),
+                        y.clone(),
+                        get_trace(&()),
+                    ));
+                    InfixOperator::Mul
+                }
                 Arith::Div => {
-                    // TODO - implement try_div! to avoid panic on divide-by-zero
+                    alt.replace(model::try_arith(
+                        "checked_div",
+                        x.clone(),
+                        y.clone(),
+                        get_trace(&()),
+                    ));
                     InfixOperator::Div
                 }
                 Arith::Rem => {
-                    // TODO - implement try_rem! to avoid panic on remainder-by-zero
+                    alt.replace(model::try_arith(
+                        "checked_rem",
+                        x.clone(),
+                        y.clone(),
+                        get_trace(&()),
+                    ));
                     InfixOperator::Rem
                 }
                 Arith::Shl => InfixOperator::Shl,
@@ -1203,10 +1229,12 @@ fn embed_expr(expr: &GTExpr, info: ExprInfo) -> RustExpr {
                     RustExpr::Operation(RustOp::PrefixOp(op, Box::new(x)))
                 }
                 UnaryOp::IntPred => {
-                    RustExpr::FunctionCall(Box::new(RustExpr::local("pred")), vec![x])
+                    let one = RustExpr::num_lit(1usize);
+                    model::try_arith("checked_sub", x, one, get_trace(&()))
                 }
                 UnaryOp::IntSucc => {
-                    RustExpr::FunctionCall(Box::new(RustExpr::local("succ")), vec![x])
+                    let one = RustExpr::num_lit(1usize);
+                    model::try_arith("checked_add", x, one, get_trace(&()))
                 }
             }
         }
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index 8756f50..10420c9 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -483,6 +483,11 @@ pub fn repeat_between_finished(
     try_call!(fn repeat_between_finished, out_of_reps, len, min, max )
 }
 
+/// Checked arithmetic, as an early return from the enclosing decoder if the operation has no result.
+pub fn try_arith(op: &'static str, x: RustExpr, y: RustExpr, trace: u64) -> RustExpr {
+    RustExpr::local("try_arith!").call_with([RustExpr::local(op), x, y, RustExpr::u64lit(trace)])
+}
+
 pub fn parse_huffman(code_lengths: RustExpr, opt_values_expr: Option<RustExpr>) -> RustExpr {
     let values = RustExpr::lift_option(opt_values_expr);
     call!(fn parse_huffman, code_lengths, values)
diff --git a/src/prelude.rs b/src/prelude.rs
index ee5ead2..2bb388d 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -61,6 +61,25 @@ macro_rules! try_sub {
     };
 }
 
+/// Performs the named checked arithmetic operation, returning an error if it has no result
+#[macro_export]
+macro_rules! try_arith {
+    ( $op:ident, $x:expr_2021, $y:expr_2021, $trace:expr_2021 ) => {
+        match $x.$op($y) {
+            Some(z) => z,
+            None => {
+                return Err(ParseError::UnsoundOperation(
+                    Some(concat!(stringify!($op), " has no result")),
+                    $trace,
+                ))
+            }
+        }
+    };
+}
+
+// generated code reaches this one through the prelude
+pub use crate::try_arith;
+
 /// Computes the predecessor `x - 1`.
 ///
 /// When called on `x := 0`, will behave identically to `x - 1`.
-- 
2.43.0


From 7f0c53313aad23a252dda3b6f876c9d807a5c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:54 +0000
Subject: [PATCH 34/46] fix: an infallible alternative in generated code yields
 a Result

---
 src/codegen/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index c068a8e..899101a 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2709,8 +2709,9 @@ impl GenBlock {
                     ret: Some(ret),
                 }
             } else {
+                // NOTE - an infallible block still has to produce the `Result` its consumer inspects
                 Self {
-                    ret: Some(ret),
+                    ret: Some(ret.wrap_ok(Some("PResult"))),
                     ..self
                 }
             }
-- 
2.43.0


From b0b3ee33dce0c65c0668b3948171bf713b4e9d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:54 +0000
Subject: [PATCH 35/46] fix: a generated where-check does not move the value it
 checks

---
 src/codegen/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 899101a..92dce90 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3780,7 +3780,13 @@ impl ToAst for DerivedLogic<GTExpr> {
             }
             DerivedLogic::Where(f, severity, inner) => {
                 let assign_inner = GenStmt::assign(model::WHERE_INNER, inner.to_ast(ctxt));
-                let is_valid = f.apply(RustExpr::local(model::WHERE_INNER), ExprInfo::default());
+                // NOTE - the value is yielded after the check, so the check may not move out of it
+                let checked = if f.head_type.is_copy() {
+                    RustExpr::local(model::WHERE_INNER)
+                } else {
+                    RustExpr::local(model::WHERE_INNER).call_method("clone")
+                };
+                let is_valid = f.apply(checked, ExprInfo::default());
                 let bind_cond = GenStmt::Embed(RustStmt::assign(model::WHERE_CHECK, is_valid));
                 let ctrl = {
                     let b_valid = GenBlock::simple_expr(RustExpr::local(model::WHERE_INNER));
-- 
2.43.0


From e65001ce054b3b8a3a489cea126adcb48c15874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:54 +0000
Subject: [PATCH 36/46] fix: a match is only rendered as matches! when that
 means the same

---
 src/codegen/mod.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 92dce90..2e90b48 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1511,24 +1511,42 @@ fn try_as_matches_macro_cases(
     branch_sel: bool,
 ) -> Option<Vec<RustPattern>> {
     let mut accum = Vec::new();
-    for (pat, branch_val) in cases {
+    let mut binds = false;
+    for (ix, (pat, branch_val)) in cases.iter().enumerate() {
         match branch_val {
             TypedExpr::Bool(bval) => {
                 if *bval == branch_sel {
                     if matches!(pat, TypedPattern::Wildcard(..)) && cases.len() > 1 {
                         return None;
                     }
+                    binds |= pattern_binds(pat);
                     accum.push(embed_pattern(pat));
-                } else if !matches!(pat, TypedPattern::Wildcard(..)) {
+                } else if !matches!(pat, TypedPattern::Wildcard(..)) || ix + 1 != cases.len() {
                     return None;
                 }
             }
             _other => return None,
         }
     }
+    // or-patterns have to agree on what they bind, and there has to be at least one
+    if accum.is_empty() || (binds && accum.len() > 1) {
+        return None;
+    }
     Some(accum)
 }
 
+/// Determines whether a pattern introduces any variable binding.
+fn pattern_binds(pat: &GTPattern) -> bool {
+    match pat {
+        TypedPattern::Binding(..) => true,
+        TypedPattern::Tuple(_, pats) | TypedPattern::Seq(_, pats) => pats.iter().any(pattern_binds),
+        TypedPattern::Variant(_, _, inner) | TypedPattern::Option(_, Some(inner)) => {
+            pattern_binds(inner)
+        }
+        _ => false,
+    }
+}
+
 /// Shorthand for embedding an expression with `ExprInfo::Natural`
 fn embed_expr_nat(expr: &TypedExpr<GenType>) -> RustExpr {
     embed_expr(expr, ExprInfo::Natural)
-- 
2.43.0


From 74b3d8b48e0ec0ed1d2143d430c35e18d5f6b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:54 +0000
Subject: [PATCH 37/46] fix: the stop condition of a generated
 repeat-until-last sees primitives by value

---
 src/codegen/mod.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 2e90b48..1c1c199 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -486,11 +486,16 @@ impl CodeGen {
                 ))
             }
             TypedDecoder::RepeatUntilLast(_gt, pred_terminal, single) => {
+                let kind = match &**pred_terminal {
+                    TypedExpr::Lambda((head_type, _), ..)
+                        if head_type.to_rust_type().try_as_prim().is_some() =>
+                    {
+                        ClosureKind::Transform
+                    }
+                    _ => ClosureKind::Predicate,
+                };
                 CaseLogic::Repeat(RepeatLogic::ConditionTerminal(
-                    Box::new(GenLambda::from_expr(
-                        *pred_terminal.clone(),
-                        ClosureKind::Predicate,
-                    )),
+                    Box::new(GenLambda::from_expr(*pred_terminal.clone(), kind)),
                     Box::new(self.translate(single.get_dec())),
                 ))
             }
@@ -3222,10 +3227,13 @@ where
                 let ctrl = {
                     let elt_bind = GenStmt::assign(model::UNTIL_LAST_ELEM, elt.to_ast(ctxt));
                     let stop_if_done = {
-                        let done_cond = pred_last.beta_reduce(
-                            RustExpr::borrow_of(RustExpr::local(model::UNTIL_LAST_ELEM)),
-                            ExprInfo::default(),
-                        );
+                        let elem = RustExpr::local(model::UNTIL_LAST_ELEM);
+                        // NOTE - a primitive is passed by value, as it cannot be compared through a reference
+                        let param = match pred_last.kind {
+                            ClosureKind::Transform => elem,
+                            _ => RustExpr::borrow_of(elem),
+                        };
+                        let done_cond = pred_last.beta_reduce(param, ExprInfo::default());
                         let b_terminal = GenBlock::from_parts(
                             vec![
                                 model::vec_push(
-- 
2.43.0


From 5d0ff7424412291082b40bb4f20cc8402dd39602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:03 +0000
Subject: [PATCH 38/46] fix: generated code substitutes U+FFFD for a code point
 that is not a character

---
 generated/gencode.rs | 4 ++--
 src/codegen/mod.rs   | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index e2a012b..a839469 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -10031,7 +10031,7 @@ b
 return Err(ParseError::ExcludedBranch(2153064741293804702u64));
 }
 };
-(char::from_u32(0u32)).unwrap()
+(char::from_u32(0u32)).unwrap_or(char::REPLACEMENT_CHARACTER)
 },
 
 1 => {
@@ -10377,7 +10377,7 @@ return Err(ParseError::ExcludedBranch(6821845925776570829u64));
 }
 }
 };
-PResult::Ok((char::from_u32(codepoint)).unwrap())
+PResult::Ok((char::from_u32(codepoint)).unwrap_or(char::REPLACEMENT_CHARACTER))
 }
 
 /// d#21
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 1c1c199..9a690cb 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1279,7 +1279,10 @@ fn embed_expr(expr: &GTExpr, info: ExprInfo) -> RustExpr {
         }
         TypedExpr::AsChar(codepoint) => RustExpr::scoped(["char"], "from_u32")
             .call_with([embed_expr_nat(codepoint)])
-            .call_method("unwrap"),
+            .call_method_with(
+                "unwrap_or",
+                [RustExpr::scoped(["char"], "REPLACEMENT_CHARACTER")],
+            ),
         TypedExpr::SeqLength(seq) => {
             // NOTE - SeqLength is treated as U32 in Format context, so any operations on it have to be done on a U32 value rather than the natural `.len(): _ -> usize` return-value
             RustExpr::Operation(RustOp::AsCast(
-- 
2.43.0


From d69fff6db45404edef92bada2da7f6028ac2ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:10 +0000
Subject: [PATCH 39/46] fix: a generated conditional with a compound condition
 keeps its value

---
 generated/gencode.rs | 24 ++++++++----------------
 src/codegen/model.rs | 14 ++++++++------
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index a839469..cd579bf 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -14732,8 +14732,7 @@ accum.push(next_elem);
 break
 } else {
 accum.push(next_elem)
-};
-
+}
 }
 };
 accum
@@ -15461,8 +15460,7 @@ accum.push(next_elem);
 break
 } else {
 accum.push(next_elem)
-};
-
+}
 }
 };
 accum
@@ -15889,8 +15887,7 @@ accum.push(next_elem);
 break
 } else {
 accum.push(next_elem)
-};
-
+}
 }
 };
 accum
@@ -15987,8 +15984,7 @@ v => {
 };
 if tmp_cond {
 break
-};
-
+}
 }
 };
 PResult::Ok(accum)
@@ -16670,8 +16666,7 @@ totlen >= (try_arith!(checked_mul, point_count, 2u16, 4338497647520366709u64))
 };
 if tmp_cond {
 break
-};
-
+}
 };
 let elem = {
 let control = {
@@ -16832,8 +16827,7 @@ totlen >= point_count
 };
 if tmp_cond {
 break
-};
-
+}
 };
 let elem = (Decoder_opentype_var_packed_point_numbers_runs(_input))?;
 acc = {
@@ -20724,8 +20718,7 @@ totlen >= number_of_coordinates
 };
 if tmp_cond {
 break
-};
-
+}
 };
 let elem = {
 let flags = (Decoder_opentype_glyph_description_simple_flags_raw(_input))?;
@@ -20865,8 +20858,7 @@ false
 };
 if tmp_cond {
 break
-};
-
+}
 };
 let elem = {
 let flags = {
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index 10420c9..2cbea3a 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -339,15 +339,17 @@ pub(super) fn simplifying_if(
         )))
     } else {
         // REVIEW - we might need a strategy to avoid the temporary variable accidentally shadowing locally-external bindings
-        GenExpr::BlockScope(Box::new(GenBlock::from(vec![
-            GenStmt::Embed(RustStmt::assign(COMPLEX_COND_TMP, predicate)),
-            RustControl::If(
+        GenExpr::BlockScope(Box::new(GenBlock::from_parts(
+            vec![GenStmt::Embed(RustStmt::assign(
+                COMPLEX_COND_TMP,
+                predicate,
+            ))],
+            Some(GenExpr::Control(Box::new(RustControl::If(
                 Box::new(RustExpr::local(COMPLEX_COND_TMP)),
                 then_branch,
                 else_branch,
-            )
-            .into(),
-        ])))
+            )))),
+        )))
     }
 }
 
-- 
2.43.0


From 4b628188652e3c91408db0c1cfa8c03d92287a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:10 +0000
Subject: [PATCH 40/46] fix: distinct generated types reached along one path
 get distinct names

---
 src/codegen/path_names.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/codegen/path_names.rs b/src/codegen/path_names.rs
index 582cd25..0dee738 100644
--- a/src/codegen/path_names.rs
+++ b/src/codegen/path_names.rs
@@ -1,9 +1,10 @@
 use super::util::{FxHash, StableMap};
 use super::{
-    name::{NameCtxt, PathLabel},
+    name::{NameAtom, NameCtxt, PathLabel},
     rust_ast::RustTypeDecl,
 };
 use crate::Label;
+use std::collections::BTreeMap;
 
 pub struct NameGen {
     pub(super) ctxt: NameCtxt,
@@ -12,6 +13,8 @@ pub struct NameGen {
     pub(super) rev_map: StableMap<RustTypeDecl, (usize, PathLabel), FxHash>,
     // Reassociation table for converting first-pass name selections into their ideal seed-PathLabel
     pub(super) name_remap: StableMap<Label, PathLabel, FxHash>,
+    // Ownership of each PathLabel in use, by ad-hoc type index, so that distinct types reached along one path are not given the same name
+    claims: BTreeMap<PathLabel, usize>,
 }
 
 impl NameGen {
@@ -21,9 +24,24 @@ impl NameGen {
             ctr: 0,
             rev_map: Default::default(),
             name_remap: Default::default(),
+            claims: BTreeMap::new(),
         }
     }
 
+    /// Registers the current path on behalf of the type with index `ix`, extending it if it already belongs to another type
+    fn claim_path(&mut self, ix: usize) -> PathLabel {
+        let mut loc = self.ctxt.register_path();
+        let mut pos = 0;
+        while self.claims.contains_key(&loc) {
+            self.ctxt.push_atom(NameAtom::Positional(pos));
+            loc = self.ctxt.register_path();
+            self.ctxt.escape();
+            pos += 1;
+        }
+        self.claims.insert(loc.clone(), ix);
+        loc
+    }
+
     pub fn manifest_renaming_table(&mut self) -> StableMap<Label, Label, FxHash> {
         let mut ret = StableMap::<Label, Label, FxHash>::default();
         for (k, v) in self.name_remap.iter() {
@@ -65,7 +83,14 @@ impl NameGen {
                         .and_modify(|prior: &mut PathLabel| {
                             let _tmp = prior.clone();
                             // if it is currently associated with a different PathLabel `prior`,
-                            let _changed = self.ctxt.refine_path(prior, path_here.clone()); // rebind to whichever of `path_here` or `prior` is better
+                            let _changed = !self.claims.get(&path_here).is_some_and(|owner| owner != ix) // unless `path_here` already names another type,
+                                && self.ctxt.refine_path(prior, path_here.clone()); // rebind to whichever of `path_here` or `prior` is better
+                            if _changed {
+                                if _tmp != *orig_path {
+                                    self.claims.remove(&_tmp);
+                                }
+                                self.claims.insert(path_here.clone(), *ix);
+                            }
 
                             // NOTE - comment out the cfg attr to re-enable debugging
                             #[cfg(false)]
@@ -86,7 +111,7 @@ impl NameGen {
                 let ix = self.ctr;
                 self.ctr += 1;
                 let (path, ret) = {
-                    let loc = self.ctxt.register_path();
+                    let loc = self.claim_path(ix);
                     let name = self.ctxt.find_name_for(&loc).unwrap();
                     (loc, name)
                 };
-- 
2.43.0


From ef2b7f0e8616ae3333bb60761acae18653f64bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:28 +0000
Subject: [PATCH 41/46] fix: operands in generated code are grouped as the
 expression is

---
 src/codegen/rust_ast/mod.rs | 44 +++++++++++++++++++++++++++++++++----
 src/precedence.rs           |  1 -
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index 099e95a..90d4544 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -12,7 +12,7 @@ use crate::numeric::elaborator::PrimInt as ExtPrimInt;
 use crate::codegen::model::{DEFAULT_LT, READ_ARRAY_IS_COPY, VIEW_OBJECT_IS_COPY};
 use crate::output::{Fragment, FragmentBuilder};
 
-use crate::precedence::{Precedence, cond_paren};
+use crate::precedence::{IntransitiveOrd, Precedence, cond_paren};
 use crate::{BaseKind, BaseType, IntoLabel, Label, ValueType};
 
 /// Enum-type (currently degenerate) for specifying the visibility of a top-level item
@@ -2868,6 +2868,21 @@ impl ToFragment for RustMacro {
     }
 }
 
+impl RustExpr {
+    /// Renders an expression as the leading operand of an operator.
+    ///
+    /// A block-like expression is parenthesized, as it would otherwise end the statement it begins.
+    fn to_fragment_operand(&self, prec: Precedence) -> Fragment {
+        match self {
+            RustExpr::BlockScope(stmts, val) if stmts.is_empty() => val.to_fragment_operand(prec),
+            RustExpr::BlockScope(..) | RustExpr::Control(..) => self
+                .to_fragment_precedence(prec)
+                .delimit(Fragment::Char('('), Fragment::Char(')')),
+            _ => self.to_fragment_precedence(prec),
+        }
+    }
+}
+
 impl ToFragmentExt for RustExpr {
     fn to_fragment_precedence(&self, prec: Precedence) -> Fragment {
         match self {
@@ -3287,6 +3302,18 @@ impl InfixOperator {
         }
     }
 
+    /// Whether `X self (Y other Z)` and `(X self Y) other Z` are interchangeable, for operators of the same rank
+    fn regroups_with(&self, other: &Self) -> bool {
+        matches!(
+            (self, other),
+            (InfixOperator::Add, InfixOperator::Add) | (InfixOperator::Mul, InfixOperator::Mul)
+                | (InfixOperator::BitOr, InfixOperator::BitOr)
+                | (InfixOperator::BitAnd, InfixOperator::BitAnd)
+                | (InfixOperator::BoolOr, InfixOperator::BoolOr)
+                | (InfixOperator::BoolAnd, InfixOperator::BoolAnd)
+        )
+    }
+
     pub(crate) fn out_type(&self, lhs_type: PrimType, rhs_type: PrimType) -> Option<PrimType> {
         match self {
             InfixOperator::Eq | InfixOperator::Neq => {
@@ -3437,9 +3464,18 @@ impl ToFragmentExt for RustOp {
         let inherent = self.precedence();
         match self {
             RustOp::InfixOp(op, lhs, rhs) => cond_paren(
-                lhs.to_fragment_precedence(inherent)
+                lhs.to_fragment_operand(inherent)
                     .cat(Fragment::string(op.token()))
-                    .cat(rhs.to_fragment_precedence(inherent)),
+                    .cat(match rhs.as_ref() {
+                        // NOTE - infix operators group to the left, so a right operand of the same rank needs explicit grouping
+                        RustExpr::Operation(RustOp::InfixOp(rhs_op, ..))
+                            if op.precedence().congruent(&rhs_op.precedence())
+                                && !op.regroups_with(rhs_op) =>
+                        {
+                            rhs.to_fragment_precedence(Precedence::ATOM)
+                        }
+                        _ => rhs.to_fragment_precedence(inherent),
+                    }),
                 prec,
                 inherent,
             ),
@@ -3449,7 +3485,7 @@ impl ToFragmentExt for RustOp {
                 inherent,
             ),
             RustOp::AsCast(expr, typ) => cond_paren(
-                expr.to_fragment()
+                expr.to_fragment_operand(Precedence::ATOM)
                     .intervene(Fragment::string(" as "), typ.to_fragment()),
                 prec,
                 inherent,
diff --git a/src/precedence.rs b/src/precedence.rs
index 77ab0f6..bcb1a0b 100644
--- a/src/precedence.rs
+++ b/src/precedence.rs
@@ -115,7 +115,6 @@ pub(crate) enum Relation {
 pub(crate) trait IntransitiveOrd {
     fn relate(&self, other: &Self) -> Relation;
 
-    #[expect(dead_code)]
     fn congruent(&self, other: &Self) -> bool {
         matches!(self.relate(other), Relation::Congruent)
     }
-- 
2.43.0


From bddf19af6614166feba586be9295ea2f271702b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:28 +0000
Subject: [PATCH 42/46] fix: a backward seek in the run-time parser keeps to
 the enclosing window

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ccdbe91..c66f227 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -101,7 +101,7 @@ impl<'a> Parser<'a> {
                 self.offset.try_increment(delta)?;
                 true
             } else {
-                self.offset.seek_to_offset(o_dest, false)?;
+                self.offset.seek_to_offset(o_dest, true)?;
                 false
             };
         Ok(is_advance)
-- 
2.43.0


From 35159ee9c3885d1d5c0ea4e23f46ce4904e76854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:30 +0000
Subject: [PATCH 43/46] fix: number the traces of generated code from the start
 of each generation

The trace numbers came from a thread-local counter that was never reset, so generating the same description a second time on a thread gave different source.
---
 src/codegen/mod.rs   | 3 ++-
 src/codegen/trace.rs | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 9a690cb..e3fac49 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -6,7 +6,7 @@ use std::{
     rc::Rc,
 };
 
-use trace::get_and_increment_seed;
+use trace::{get_and_increment_seed, reset_seed};
 
 use crate::{
     Arith, BaseKind, BaseType, CommonOp, DynFormat, Endian, Expr, Format, FormatModule, IntRel,
@@ -3880,6 +3880,7 @@ impl ToAst for DynamicLogic<GTExpr> {
 /// format-module `module`. Any formats within `module` that are inaccessible via exploration
 /// of `top_format` may be omitted from the resulting code-output.
 pub fn generate_code(module: &FormatModule, top_format: &Format) -> impl ToFragment + use<> {
+    reset_seed();
     let mut items = Vec::new();
 
     let Generator {
diff --git a/src/codegen/trace.rs b/src/codegen/trace.rs
index 765ea48..4885383 100644
--- a/src/codegen/trace.rs
+++ b/src/codegen/trace.rs
@@ -9,3 +9,9 @@ pub(crate) fn get_and_increment_seed() -> u64 {
         tmp
     })
 }
+
+/// Restarts the sequence of seeds, so that what a code generation emits does not depend on how many
+/// generations came before it on the same thread.
+pub(crate) fn reset_seed() {
+    TRACE_SEED.set(0);
+}
-- 
2.43.0


From 6c0e2a6265f5b947d509f22fc87dc6bfaee7b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:30 +0000
Subject: [PATCH 44/46] fix: the flat listing sees through values of Permit
 formats

Such a value is wrapped in Value::Permit, which was handed as it is to the inner format and panicked there.
---
 src/output/flat.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/output/flat.rs b/src/output/flat.rs
index 2936882..212e743 100644
--- a/src/output/flat.rs
+++ b/src/output/flat.rs
@@ -348,7 +348,12 @@ impl<'module, W: io::Write> Context<'module, W> {
             Format::Hint(StyleHint::Record { .. }, record_format) => {
                 self.write_record(value, record_format)
             }
-            Format::Permit(format, _) => self.write_flat(value, format),
+            Format::Permit(format, _) => match value {
+                Value::Permit(Ok(value)) => self.write_flat(value, format),
+                // the fallback value was not produced by the format
+                Value::Permit(Err(_)) => Ok(()),
+                _ => panic!("expected permit, found {value:?}"),
+            },
             #[cfg(feature = "format_enforce")]
             Format::Enforce(format) => self.write_flat(value, format),
             Format::Hint(StyleHint::AsciiStr, str_format) => self.write_flat(value, str_format),
-- 
2.43.0


From 5af55ce48c6e3f2b7997b74d577bd4250dd1d015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:30 +0000
Subject: [PATCH 45/46] fix: the tree looks through format wrappers when a
 value is a branch

is_atomic_value stripped the branch along with each wrapper, so a union behind two of them indexed the wrong branches, and panicked on wrappers it did not list (Where, Slice, Bits, Peek, LetView, Dynamic).
---
 src/output/tree.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/output/tree.rs b/src/output/tree.rs
index fef2173..9f8604f 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -253,28 +253,31 @@ impl<'module> TreePrinter<'module> {
                     }
                 }
             }
-            Value::Branch(n, value) => match format.map(|f| self.unwrap_itemvars(f)) {
+            Value::Branch(n, inner) => match format.map(|f| self.unwrap_itemvars(f)) {
                 Some(Format::Union(branches)) | Some(Format::UnionNondet(branches)) => {
                     let format = &branches[*n];
-                    self.is_atomic_value(value.as_ref(), Some(format))
+                    self.is_atomic_value(inner.as_ref(), Some(format))
                 }
                 Some(Format::Match(_head, branches)) => {
                     let (_pattern, format) = &branches[*n];
-                    self.is_atomic_value(value.as_ref(), Some(format))
-                }
-                // expose wrapped format contents
-                // REVIEW[epic=correctness] - have we covered all appropriate cases?
-                Some(Format::Let(.., inner))
-                | Some(Format::Hint(.., inner))
-                | Some(Format::WithRelativeOffset(.., inner))
-                | Some(Format::ParseFromView(.., inner))
-                | Some(Format::DecodeBytes(.., inner))
-                | Some(Format::MonadSeq(.., inner))
-                | Some(Format::LetFormat(.., inner)) => {
-                    self.is_atomic_value(value.as_ref(), Some(inner))
+                    self.is_atomic_value(inner.as_ref(), Some(format))
                 }
-                None => self.is_atomic_value(value.as_ref(), None),
-                f => panic!("expected format suitable for branch: {f:?}"),
+                // expose wrapped format contents, which are what produced this same value
+                Some(Format::Let(.., format))
+                | Some(Format::LetView(.., format))
+                | Some(Format::Hint(.., format))
+                | Some(Format::Peek(format))
+                | Some(Format::Slice(.., format))
+                | Some(Format::Bits(format))
+                | Some(Format::Where(format, ..))
+                | Some(Format::Dynamic(.., format))
+                | Some(Format::WithRelativeOffset(.., format))
+                | Some(Format::ParseFromView(.., format))
+                | Some(Format::DecodeBytes(.., format))
+                | Some(Format::MonadSeq(.., format))
+                | Some(Format::LetFormat(.., format)) => self.is_atomic_value(value, Some(format)),
+                // the branch belongs to no format we can see
+                _ => self.is_atomic_value(inner.as_ref(), None),
             },
             Value::Option(None) => true,
             // FIXME[epic=workaround-hack] - we cannot easily reconstruct the format corresponding to the inner value, so we discard the format-hint
-- 
2.43.0


From 640e0e7c95e503e402b4fca8214ba0dc6f53bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:30 +0000
Subject: [PATCH 46/46] fix: tables in the tree leave out hidden fields and
 locate each row

Rows listed the hidden fields that the header leaves out (and panicked), and in the located tree each row was given the location of an earlier row, because one location was recorded per cell.
---
 src/output/tree.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/output/tree.rs b/src/output/tree.rs
index 9f8604f..2d077a4 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -1245,12 +1245,13 @@ impl<'module> TreePrinter<'module> {
         for v in vals.inner.iter() {
             let mut row = Vec::new();
             if let ParsedValue::Record(Parsed { loc, inner: fields }) = v {
-                for (i, (_l, v)) in fields.iter().enumerate() {
+                let shown = fields.iter().filter(|(l, _)| header.contains(l));
+                for (i, (_l, v)) in shown.enumerate() {
                     let cell = atomic_value_to_string(&v.clone_into_value());
                     cols[i] = std::cmp::max(cols[i], cell.len());
                     row.push(cell);
-                    locs.push(*loc);
                 }
+                locs.push(*loc);
             } else {
                 panic!("expected record value: {v:?}");
             }
@@ -1275,7 +1276,8 @@ impl<'module> TreePrinter<'module> {
         for v in vals {
             let mut row = Vec::new();
             if let Value::Record(fields) = v {
-                for (i, (_l, v)) in fields.iter().enumerate() {
+                let shown = fields.iter().filter(|(l, _)| header.contains(l));
+                for (i, (_l, v)) in shown.enumerate() {
                     let cell = atomic_value_to_string(v);
                     cols[i] = std::cmp::max(cols[i], cell.len());
                     row.push(cell);
-- 
2.43.0

