From 433b6d389758581a4c4b84cfa9d763f328067ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 01/21] fix: keep nested group matches restorable when the
 enclosing group fails

Committing a nested snapshot threw its elements away, so a later failure of
the enclosing group could not put them back: [? ((int, int), tstr)] accepted
[1, 2].
---
 src/validate.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 564e539..170db20 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -207,9 +207,13 @@ impl WorkingMap {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
-        // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        let top_snap = self.snaps.pop_back().unwrap();
+        // If this snapshot was nested inside another one, the enclosing match
+        // may still fail, so hand these elements to the enclosing snapshot.
+        // Otherwise they were successfully matched and are no longer needed.
+        if let Some(snap) = self.snaps.back_mut() {
+            snap.extend(top_snap);
+        }
     }
 
     // Peek at the value correspending to a given key (if any)
@@ -283,9 +287,13 @@ impl WorkingArray {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
-        // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        let top_snap = self.snaps.pop_back().unwrap();
+        // If this snapshot was nested inside another one, the enclosing match
+        // may still fail, so hand these elements to the enclosing snapshot.
+        // Otherwise they were successfully matched and are no longer needed.
+        if let Some(snap) = self.snaps.back_mut() {
+            snap.extend(top_snap);
+        }
     }
 
     // Peek at the front of the working array.
-- 
2.43.0


From 5ff6a950b28394e9ffd973c6b93aa6bf5b781efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 02/21] fix: an unwrapped array or map that fails partway
 consumes nothing

[? ~pair, int] with pair = [int, tstr] rejected [1], because the element
matched by the first half of pair was not given back.
---
 src/validate.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 170db20..e7fde7e 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -598,11 +598,19 @@ fn validate_array_unwrap(
     // Array node too.
     match node {
         Node::Array(a) => {
+            // The members of the unwrapped array behave like a group: either
+            // all of them match, or none of them consumes anything.
+            working_array.snapshot();
+
             // Recurse into each member of the unwrapped array.
             for member in &a.members {
-                validate_array_member(member, working_array, ctx)?;
+                if let Err(e) = validate_array_member(member, working_array, ctx) {
+                    working_array.rewind();
+                    return Err(e);
+                }
             }
             // All array members validated Ok.
+            working_array.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap array")),
@@ -873,11 +881,20 @@ fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context)
     // Map node too.
     match node {
         Node::Map(m) => {
-            // Recurse into each member of the unwrapped array.
+            // The members of the unwrapped map behave like a group: either
+            // all of them match, or none of them consumes anything.
+            working_map.snapshot();
+
+            // Recurse into each member of the unwrapped map.
             for member in &m.members {
-                validate_map_member(member, working_map, ctx)?;
+                if let Err(e) = validate_map_member(member, working_map, ctx) {
+                    working_map.rewind();
+                    // As for a group, forget any MapCut errors.
+                    return Err(e.erase_mapcut());
+                }
             }
-            // All array members validated Ok.
+            // All map members validated Ok.
+            working_map.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap map")),
-- 
2.43.0


From 82bad738f597d3c60d9ea64e8a7a4c5da078fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 03/21] fix: an occurrence with an upper limit of zero matches
 nothing

0*0 and *0 still consumed one element, because the limit was only checked
after a match.
---
 src/validate.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index e7fde7e..697abcd 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -627,7 +627,8 @@ fn validate_array_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
-    loop {
+    // Stop matching when we've consumed the maximum number of this key.
+    while count < upper_limit {
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -642,10 +643,6 @@ fn validate_array_occur(
             }
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
-        }
     }
     if count < lower_limit {
         return Err(mismatch(format!("more array element [{}]", occur)));
@@ -910,7 +907,8 @@ fn validate_map_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
-    loop {
+    // Stop matching when we've consumed the maximum number of this key.
+    while count < upper_limit {
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -925,10 +923,6 @@ fn validate_map_occur(
             }
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
-        }
     }
     if count < lower_limit {
         // Read this format string as "{{" then "{}" then "}}"
-- 
2.43.0


From e0bc0dd7487059a2c1435ab9e8079d4cd0b99215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 04/21] fix: stop repeating a member that matches without
 consuming anything

[* (? int)] and {* (? a: int)} never returned.
---
 src/validate.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 697abcd..8c470a8 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -629,8 +629,15 @@ fn validate_array_occur(
 
     // Stop matching when we've consumed the maximum number of this key.
     while count < upper_limit {
+        let remaining = working_array.array.len();
         match validate_array_member(&occur.node, working_array, ctx) {
-            Ok(_) => (),
+            Ok(_) => {
+                if working_array.array.len() == remaining {
+                    // We matched without consuming anything, and could do so
+                    // any number of times.
+                    return Ok(());
+                }
+            }
             Err(e) => {
                 if e.is_mismatch() {
                     // Stop trying to match this occurrence.
@@ -909,8 +916,15 @@ fn validate_map_occur(
 
     // Stop matching when we've consumed the maximum number of this key.
     while count < upper_limit {
+        let remaining = working_map.map.len();
         match validate_map_member(&occur.node, working_map, ctx) {
-            Ok(_) => (),
+            Ok(_) => {
+                if working_map.map.len() == remaining {
+                    // We matched without consuming anything, and could do so
+                    // any number of times.
+                    return Ok(());
+                }
+            }
             Err(e) => {
                 if e.is_mismatch() {
                     // Stop trying to match this occurrence.
-- 
2.43.0


From f8a63f7d30d014289b4a9089700445d9adc507ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 05/21] fix: an occurrence that finds too few repetitions
 consumes nothing

With foo = 2*2 int, [* foo] accepted [1]: the element matched by the failed
repetition was dropped.
---
 src/validate.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 8c470a8..1c4809e 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -627,6 +627,10 @@ fn validate_array_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
+    // If there aren't enough repetitions, the ones we did find must be left for
+    // whatever we try next.
+    working_array.snapshot();
+
     // Stop matching when we've consumed the maximum number of this key.
     while count < upper_limit {
         let remaining = working_array.array.len();
@@ -635,6 +639,7 @@ fn validate_array_occur(
                 if working_array.array.len() == remaining {
                     // We matched without consuming anything, and could do so
                     // any number of times.
+                    working_array.commit();
                     return Ok(());
                 }
             }
@@ -646,14 +651,17 @@ fn validate_array_occur(
                 // The error is something serious (e.g. MissingRule or
                 // Unsupported).  We should fail now and propagate that
                 // error upward.
+                working_array.rewind();
                 return Err(e);
             }
         }
         count += 1;
     }
     if count < lower_limit {
+        working_array.rewind();
         return Err(mismatch(format!("more array element [{}]", occur)));
     }
+    working_array.commit();
     Ok(())
 }
 
@@ -914,6 +922,10 @@ fn validate_map_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
+    // If there aren't enough repetitions, the ones we did find must be left for
+    // whatever we try next.
+    working_map.snapshot();
+
     // Stop matching when we've consumed the maximum number of this key.
     while count < upper_limit {
         let remaining = working_map.map.len();
@@ -922,6 +934,7 @@ fn validate_map_occur(
                 if working_map.map.len() == remaining {
                     // We matched without consuming anything, and could do so
                     // any number of times.
+                    working_map.commit();
                     return Ok(());
                 }
             }
@@ -933,17 +946,20 @@ fn validate_map_occur(
                 // Either we got a MapCut error, or it's something even more
                 // serious (e.g. MissingRule or Unsupported).  We should fail
                 // now and propagate that error upward.
+                working_map.rewind();
                 return Err(e);
             }
         }
         count += 1;
     }
     if count < lower_limit {
+        working_map.rewind();
         // Read this format string as "{{" then "{}" then "}}"
         // The first and last print a single brace; the value is in the
         // middle, e.g "{foo}".
         return Err(mismatch(format!("map{{{}}}]", occur)));
     }
+    working_map.commit();
     Ok(())
 }
 
-- 
2.43.0


From e6bf24dadf05c0c61c9114ee477225fb705845ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 06/21] fix: report schema errors found while searching for a
 map key

map_search took every error for a key that does not match, so
{? missing => int} accepted {} -like data instead of naming the missing rule.
---
 src/validate.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 1c4809e..6ee1608 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -430,9 +430,11 @@ fn map_search<'a>(
     ctx: &Context,
 ) -> TempResult<(Value, &'a Value)> {
     for (key, value) in &working_map.map {
-        let attempt = validate(key, node, ctx);
-        if attempt.is_ok() {
-            return Ok((key.clone(), value));
+        match validate(key, node, ctx) {
+            Ok(()) => return Ok((key.clone(), value)),
+            // A problem with the CDDL itself must not pass for a missing key.
+            Err(e) if e.is_fatal() => return Err(e),
+            Err(_) => (),
         }
     }
     // We searched all the keys without finding a match.  Validation fails.
-- 
2.43.0


From f13dcdbc36df4719d067d5fc264b63a6d372b553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 07/21] fix: a non-cut map member takes an entry whose key and
 value both match

{tstr => int, * any => any} rejected {"a": "x", "b": 1}: only the first entry
with a matching key was considered.
---
 src/validate.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 6ee1608..6695f5a 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -441,6 +441,28 @@ fn map_search<'a>(
     Err(mismatch(format!("map{{{}}}", node)))
 }
 
+// Iterate over each key in the working map, looking for an entry whose key and
+// value both match, and return a copy of its key.
+// This is used for keys without "cut" semantics: an entry whose key matches but
+// whose value doesn't is left in place, and another entry may match instead.
+fn map_search_pair(kv: &KeyValue, working_map: &WorkingMap, ctx: &Context) -> TempResult<Value> {
+    let mut value_err: Option<ValidateError> = None;
+    for (key, value) in &working_map.map {
+        match validate(key, &kv.key, ctx) {
+            Ok(()) => (),
+            Err(e) if e.is_fatal() => return Err(e),
+            Err(_) => continue,
+        }
+        match validate(value, &kv.value, ctx) {
+            Ok(()) => return Ok(key.clone()),
+            Err(e) if e.is_fatal() => return Err(e),
+            Err(e) => value_err = value_err.or(Some(e)),
+        }
+    }
+    // We searched all the entries without finding a match.  Validation fails.
+    Err(value_err.unwrap_or_else(|| mismatch(format!("map{{{}}}", kv.key))))
+}
+
 // Note `ty` is passed by value because clippy says it's only 1 byte.
 fn validate_prelude_type(ty: PreludeType, value: &Value) -> ValidateResult {
     match (ty, value) {
@@ -986,6 +1008,14 @@ fn validate_map_keyvalue(
     let val_node = &kv.value;
     let cut = kv.cut;
 
+    // Without "cut" semantics, a key that isn't a literal may match several
+    // entries, and any of them may have a matching value.
+    if !cut && !matches!(key_node.as_ref(), Node::Literal(_)) {
+        let working_key = map_search_pair(kv, working_map, ctx)?;
+        working_map.remove(&working_key);
+        return Ok(());
+    }
+
     // If we fail to validate a key, exit now with an error.
     let (working_key, working_val) = validate_map_key(working_map, key_node, ctx)?;
 
-- 
2.43.0


From f280a94ec2938f91cdfcda2cf8a152ff53ff4fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 08/21] fix: accept text and byte string characters up to
 U+10FFFD

The upper bound was mistyped as U+10FFD, so most characters above the basic
multilingual plane were refused.
---
 src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e52fe05..4d9b6d1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -387,7 +387,7 @@ fn is_unescaped_bchar(c: char) -> bool {
         (0x20 ..= 0x26),
         (0x28 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
@@ -489,7 +489,7 @@ fn is_unescaped_schar(c: char) -> bool {
         (0x20 ..= 0x21),
         (0x23 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
-- 
2.43.0


From 03df5c74a6d2abb2c7f6d2f019a891679b141088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 09/21] fix: refuse CBOR with bytes left over after the data
 item

validate_cbor_bytes and .cbor ignored everything after the first item, so
bstr .cbor uint accepted h'0102'.
---
 src/cbor.rs     | 13 +++++++++++--
 src/validate.rs |  5 ++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cbor.rs b/src/cbor.rs
index 2ed61e1..6d2c064 100644
--- a/src/cbor.rs
+++ b/src/cbor.rs
@@ -120,6 +120,16 @@ impl TryFrom<CBOR_Value> for Value {
     }
 }
 
+/// Decode bytes that must contain exactly one CBOR data item.
+pub(crate) fn decode_cbor(mut bytes: &[u8]) -> Result<CBOR_Value, ValidateError> {
+    let cbor_value: CBOR_Value = ciborium::from_reader(&mut bytes)
+        .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+    if !bytes.is_empty() {
+        return Err(ValidateError::ValueError("trailing data after CBOR".into()));
+    }
+    Ok(cbor_value)
+}
+
 /// Validate already-parsed CBOR data against an already-parsed CDDL schema.
 pub fn validate_cbor(
     rule_def: &RuleDef,
@@ -143,8 +153,7 @@ pub fn validate_cbor_bytes(name: &str, cddl: &str, cbor: &[u8]) -> ValidateResul
         .ok_or_else(|| ValidateError::MissingRule(name.into()))?;
 
     // Deserialize the CBOR bytes
-    let cbor_value: CBOR_Value =
-        ciborium::from_reader(cbor).map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+    let cbor_value = decode_cbor(cbor)?;
 
     // Convert the CBOR tree into a Value tree for validation
     let value = Value::try_from(cbor_value)?;
diff --git a/src/validate.rs b/src/validate.rs
index 6695f5a..d203378 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -1146,13 +1146,12 @@ fn validate_control_cbor(_ctl_cbor: &CtlOpCbor, _value: &Value, _ctx: &Context)
 
 #[cfg(feature = "ciborium")]
 fn validate_control_cbor(ctl_cbor: &CtlOpCbor, value: &Value, ctx: &Context) -> ValidateResult {
-    use ciborium::Value as CBOR_Value;
+    use crate::cbor::decode_cbor;
     use std::convert::TryFrom;
 
     match value {
         Value::Bytes(bytes) => {
-            let cbor_value: CBOR_Value = ciborium::from_reader(bytes.as_slice())
-                .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+            let cbor_value = decode_cbor(bytes)?;
 
             let nested_value = Value::try_from(cbor_value)?;
 
-- 
2.43.0


From c985a04ecb5af57b0cb392a3e76df811bf5c2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 10/21] fix: a byte string that isn't CBOR is a mismatch for
 .cbor

It was reported as a (fatal) ValueError, so bstr .cbor uint / bstr rejected
byte strings that the second option accepts.
---
 src/validate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validate.rs b/src/validate.rs
index d203378..92c73a9 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -1151,7 +1151,9 @@ fn validate_control_cbor(ctl_cbor: &CtlOpCbor, value: &Value, ctx: &Context) ->
 
     match value {
         Value::Bytes(bytes) => {
-            let cbor_value = decode_cbor(bytes)?;
+            // Bytes that aren't CBOR don't match, but they are no reason to give
+            // up on the other options of a choice.
+            let cbor_value = decode_cbor(bytes).map_err(|_| mismatch("CBOR bytes"))?;
 
             let nested_value = Value::try_from(cbor_value)?;
 
-- 
2.43.0


From 59133e7918d6728e19a5544826813e144ead138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 11/21] fix: count generic arguments towards the recursion
 limit

Following a generic parameter went back to the depth of the point of use, so
b = a<b> with a<t> = t recursed until the stack overflowed.
---
 src/validate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validate.rs b/src/validate.rs
index 92c73a9..621edf8 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -78,7 +78,10 @@ impl<'a> Context<'a> {
             // context along with the node that is substituting for this generic
             // parameter name.  Otherwise, return a new blank Context.
             let ctx = match self.generic_map.past_ctx {
-                Some(ctx) => ctx.clone(),
+                Some(ctx) => Context {
+                    depth: self.inc_depth()?,
+                    ..ctx.clone()
+                },
                 None => self.blank()?,
             };
             return Ok(NodeContext { node, ctx });
-- 
2.43.0


From 9fe2b3394f7628a3ca219a0022d883f2b24b094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 12/21] fix: unwrap follows a name that stands for another name

~b with b = a and a = [int] was a mismatch, though ~a is not.
---
 src/validate.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 621edf8..3eea026 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -640,6 +640,11 @@ fn validate_array_unwrap(
             working_array.commit();
             Ok(())
         }
+        Node::Rule(r) => {
+            // The unwrapped name may be an alias for another name.
+            let answer = ctx.lookup_rule(r)?;
+            validate_array_unwrap(answer.node, working_array, &answer.ctx)
+        }
         _ => Err(mismatch("unwrap array")),
     }
 }
@@ -936,6 +941,11 @@ fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context)
             working_map.commit();
             Ok(())
         }
+        Node::Rule(r) => {
+            // The unwrapped name may be an alias for another name.
+            let answer = ctx.lookup_rule(r)?;
+            validate_map_unwrap(answer.node, working_map, &answer.ctx)
+        }
         _ => Err(mismatch("unwrap map")),
     }
 }
-- 
2.43.0


From 0e5ff42f4f15b69ebb6a8c8d231f6fae75a7abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 13/21] fix: a group under & may have a named type as a member

&(a: int, mytype) was a structural error, because a name without a key was
always taken for the name of a group.
---
 src/validate.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 3eea026..660813c 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -1683,8 +1683,8 @@ fn validate_choiceify_members(choices: &[Node], value: &Value, ctx: &Context) ->
                 // A group may include another group by name. Handling this:
                 // Dereference the rule. If it leads to a Group, then
                 // recursively walk the nodes in that group. Otherwise,
-                // return an error.
-                validate_choiceify(rule, value, ctx)
+                // it's a type, and becomes one of the choices.
+                validate_choiceify_name(rule, value, ctx)
             }
             _ => {
                 // Reading the CDDL spec, you might expect this case to be
@@ -1715,6 +1715,18 @@ fn validate_choiceify_members(choices: &[Node], value: &Value, ctx: &Context) ->
     Err(mismatch(expected))
 }
 
+/// Validate a name without a key inside a "choice-ified group"
+///
+/// The name may refer to another group, or to a type.
+fn validate_choiceify_name(rule: &Rule, value: &Value, ctx: &Context) -> ValidateResult {
+    let NodeContext { node, ctx } = ctx.lookup_rule(rule)?;
+    match node {
+        Node::Group(g) => validate_choiceify_members(&g.members, value, &ctx),
+        Node::Rule(r) => validate_choiceify_name(r, value, &ctx),
+        _ => validate(value, node, &ctx),
+    }
+}
+
 /// Validate a "choice-ified group" (the CDDL "&" operator)
 ///
 /// Each value in the named group will be used as a possible choice.
-- 
2.43.0


From 193f9930640e2766ef25ab0c6017aca5cf5a954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 14/21] fix: a float in a group may have a large integer part

---
 src/parser/mod.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4d9b6d1..7d9b4b3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -236,13 +236,14 @@ fn uint(input: &str) -> JResult<&str, RawUint> {
 // Extract an unsigned integer using the correct base (radix).
 #[rustfmt::skip]
 fn uint_u64(input: &str) -> JResult<&str, u64> {
-    map_res_fail(uint, |raw| {
-        u64::from_str_radix(raw.slice, raw.base)
-        .map_err(|_| {
-            parse_error(ErrorKind::MalformedInteger, raw.slice)
-        })
-    })
-    (input)
+    map_res_fail(uint, raw_to_u64)(input)
+}
+
+// A helper function for converting RawUint -> u64,
+// and mapping to the right error type
+fn raw_to_u64(raw: RawUint) -> Result<u64, CowParseError> {
+    u64::from_str_radix(raw.slice, raw.base)
+        .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))
 }
 
 // Like RawUint, this is a temporary representation so we can
@@ -741,9 +742,12 @@ where
 //       / "?"
 #[rustfmt::skip]
 fn occur_star(input: &str) -> JResult<&str, Occur> {
+    // Don't convert the lower limit until the "*" is seen: without it, those
+    // digits may be the start of something else (i.e. a float).
     let f = tuple((
-        opt(uint_u64),
-        tag("*"),
+        map_res_fail(terminated(opt(uint), tag("*")), |raw| {
+            raw.map(raw_to_u64).transpose()
+        }),
         opt(uint_u64),
     ));
     // FIXME: it's really not the parser's business to be inventing an upper
@@ -751,14 +755,14 @@ fn occur_star(input: &str) -> JResult<&str, Occur> {
     // The parser should leave these as Option and leave it to others to
     // decide what to do with that.
     map_res(f, |tup| -> Result<Occur, CowParseError> {
-        if tup.0.is_none() && tup.2.is_none() {
+        if tup.0.is_none() && tup.1.is_none() {
             Ok(Occur::ZeroOrMore)
         } else {
             let lower: usize = match tup.0 {
                 Some(n) => try_into_int(n, input)?,
                 None => 0,
             };
-            let upper: usize = match tup.2 {
+            let upper: usize = match tup.1 {
                 Some(n) => try_into_int(n, input)?,
                 None => usize::MAX,
             };
-- 
2.43.0


From ab81610543b777fac5e4ed0669635969cae2b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 15/21] fix: parse parenthesised groups in linear time

---
 src/parser/mod.rs | 143 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 104 insertions(+), 39 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7d9b4b3..3721c4d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -639,7 +639,15 @@ fn assemble_basic_member(key: Type1, value: Type) -> Result<Member, CowParseErro
 fn grpent_member(input: &str) -> JResult<&str, Member> {
 
     // The leading Type1 is required for this parser.
-    let (input, first_type1) = terminated(type1, ws)(input)?;
+    let (input, first_type1) = type1(input)?;
+
+    grpent_member_tail(first_type1, input)
+}
+
+// The part of grpent_member that follows the leading Type1.
+#[rustfmt::skip]
+fn grpent_member_tail(first_type1: Type1, input: &str) -> JResult<&str, Member> {
+    let (input, _) = ws(input)?;
 
     // If the type1 matches is a plain value or typename (aka id), then we may
     // be looking at a memberkey followed by a ":".  That syntax isn't allowed
@@ -718,12 +726,71 @@ fn grpent_parens(input: &str) -> JResult<&str, Group> {
     )(input)
 }
 
+// A parenthesized type that starts a member, or a parenthesized group.
+//
+// Trying one and then the other would parse the contents twice, which is
+// 2^N iterations for N levels of parentheses (see above). Instead, parse the
+// first entry and then see whether it's a type followed directly by ")".
+#[rustfmt::skip]
+fn grpent_val_parens(input: &str) -> JResult<&str, GrpEntVal> {
+    let (input, _) = pair(charx('('), ws)(input)?;
+    let (input, first) = opt(grpent)(input)?;
+
+    let (input, entries) = match first {
+        None => (input, Vec::new()),
+        Some(entry) => {
+            if is_plain_type(&entry) {
+                if let Ok((input, _)) = parens_end(input) {
+                    return grpent_val_parens_type(entry, input);
+                }
+            }
+            let (input, _) = optcom(input)?;
+            let (input, GrpChoice(mut entries)) = grpchoice(input)?;
+            entries.insert(0, entry);
+            (input, entries)
+        }
+    };
+
+    let (input, group) = group_tail(GrpChoice(entries), input)?;
+    let (input, _) = parens_end(input)?;
+    Ok((input, GrpEntVal::Parenthesized(group)))
+}
+
+#[rustfmt::skip]
+fn parens_end(input: &str) -> JResult<&str, char> {
+    preceded(ws, charx(')'))(input)
+}
+
+// Is this group entry a type and nothing else?
+fn is_plain_type(entry: &GrpEnt) -> bool {
+    matches!(
+        entry,
+        GrpEnt {
+            occur: None,
+            val: GrpEntVal::Member(Member { key: None, .. }),
+        }
+    )
+}
+
+// The rest of a member that starts with a parenthesized type.
+fn grpent_val_parens_type(entry: GrpEnt, input: &str) -> JResult<&str, GrpEntVal> {
+    let ty = match entry.val {
+        GrpEntVal::Member(member) => member.value,
+        _ => panic!("grpent_val_parens_type wrong entry type"),
+    };
+    let (input, first_type1) = type1_tail(Type2::Parethesized(ty), input)?;
+    let (input, member) = grpent_member_tail(first_type1, input)?;
+    Ok((input, GrpEntVal::Member(member)))
+}
+
 #[rustfmt::skip]
 fn grpent_val(input: &str) -> JResult<&str, GrpEntVal> {
+    if input.starts_with('(') {
+        return grpent_val_parens(input);
+    }
     alt((
         map(grpent_member, GrpEntVal::Member),
         map(ident, |s| GrpEntVal::Groupname(s.into())),
-        map(grpent_parens, GrpEntVal::Parenthesized),
     ))
     (input)
 }
@@ -817,24 +884,26 @@ fn group(input: &str) -> JResult<&str, Group> {
     // but separated_list1 returns an error if the
     // list-item succeeds on "", which grpchoice does.
 
-    let f = pair(
-        grpchoice,
-        many0(preceded(
-            delimited(
-                ws,
-                tag("//"),
-                ws,
-            ),
-            grpchoice
-        ))
-    );
+    let (input, first) = grpchoice(input)?;
+    group_tail(first, input)
+}
 
-    map(f, |(first, mut rest)| {
-        // Build a new vector containing all the grpchoice elements.
-        let mut gcs = vec![first];
-        gcs.append(&mut rest);
-        Group(gcs)
-    })(input)
+// The part of a group that follows its first grpchoice.
+#[rustfmt::skip]
+fn group_tail(first: GrpChoice, input: &str) -> JResult<&str, Group> {
+    let (input, mut rest) = many0(preceded(
+        delimited(
+            ws,
+            tag("//"),
+            ws,
+        ),
+        grpchoice
+    ))(input)?;
+
+    // Build a new vector containing all the grpchoice elements.
+    let mut gcs = vec![first];
+    gcs.append(&mut rest);
+    Ok((input, Group(gcs)))
 }
 
 // "(" S type S ")"
@@ -915,15 +984,7 @@ fn type2_choiceify_inline(input: &str) -> JResult<&str, Group> {
         tag("&"),
         preceded(
             ws,
-            delimited(
-                charx('('),
-                delimited(
-                    ws,
-                    group,
-                    ws,
-                ),
-                charx(')')
-            )
+            grpent_parens
         )
     )
     (input)
@@ -986,16 +1047,20 @@ fn range_or_control_op(input: &str) -> JResult<&str, (&str, Type2)> {
 // type1 = type2 [S (rangeop / ctlop) S type2]
 #[rustfmt::skip]
 fn type1(input: &str) -> JResult<&str, Type1> {
-    let f = pair(
-        type2,
-        opt(
-            preceded(
-                ws,
-                range_or_control_op
-            )
+    let (input, first) = type2(input)?;
+    type1_tail(first, input)
+}
+
+// The part of a type1 that follows its first type2.
+#[rustfmt::skip]
+fn type1_tail(first: Type2, input: &str) -> JResult<&str, Type1> {
+    let (input, op) = opt(
+        preceded(
+            ws,
+            range_or_control_op
         )
-    );
-    map(f, |ty1| match ty1 {
+    )(input)?;
+    let ty1 = match (first, op) {
         (ty2, None) => Type1::Simple(ty2),
         (start, Some(("..", end))) => Type1::Range(TypeRange {
             start,
@@ -1012,8 +1077,8 @@ fn type1(input: &str) -> JResult<&str, Type1> {
             op: op.into(),
             arg,
         }),
-    })
-    (input)
+    };
+    Ok((input, ty1))
 }
 
 // type = type1 [ / type1 ... ]  (skipping over type1 for now)
-- 
2.43.0


From ef91ecadfd0b37e1ae905ffa30cae064b21245eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 16/21] fix: limit how deeply a schema may be nested

---
 src/parser/mod.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3721c4d..3fe5653 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -38,6 +38,7 @@ use nom::{
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
 };
+use std::cell::Cell;
 use std::convert::TryFrom;
 
 use crate::ast::*;
@@ -78,6 +79,32 @@ where
     }
 }
 
+// This parser is recursive, so it must limit how deeply its input may be
+// nested, or else it would overflow the stack.
+const MAX_NESTING: usize = 100;
+
+thread_local! {
+    static NESTING: Cell<usize> = const { Cell::new(0) };
+}
+
+// Run a parser one nesting level down.
+fn nested<'a, O, F>(mut parser: F) -> impl FnMut(&'a str) -> JResult<'a, &'a str, O>
+where
+    F: FnMut(&'a str) -> JResult<'a, &'a str, O>,
+{
+    move |input: &'a str| {
+        let nesting = NESTING.with(Cell::get);
+        if nesting >= MAX_NESTING {
+            let e = parse_error(ErrorKind::Unparseable, "nested too deeply");
+            return Err(nom::Err::Failure(e));
+        }
+        NESTING.with(|n| n.set(nesting + 1));
+        let result = parser(input);
+        NESTING.with(|n| n.set(nesting));
+        result
+    }
+}
+
 // CDDL whitespace definition:
 // Note no support for tabs, or naked linefeed characters.
 //
@@ -786,7 +813,7 @@ fn grpent_val_parens_type(entry: GrpEnt, input: &str) -> JResult<&str, GrpEntVal
 #[rustfmt::skip]
 fn grpent_val(input: &str) -> JResult<&str, GrpEntVal> {
     if input.starts_with('(') {
-        return grpent_val_parens(input);
+        return nested(grpent_val_parens)(input);
     }
     alt((
         map(grpent_member, GrpEntVal::Member),
@@ -1003,7 +1030,7 @@ fn type2_choiceify_inline(input: &str) -> JResult<&str, Group> {
 //       / "#"
 #[rustfmt::skip]
 fn type2(input: &str) -> JResult<&str, Type2> {
-    alt((
+    nested(alt((
         map(value, Type2::Value),
         map(name_generic, Type2::Typename),
         map(type2_parens, Type2::Parethesized),
@@ -1012,7 +1039,7 @@ fn type2(input: &str) -> JResult<&str, Type2> {
         map(type2_unwrap, Type2::Unwrap),
         map(type2_choiceify_inline, Type2::ChoiceifyInline),
         map(type2_choiceify, Type2::Choiceify),
-    ))
+    )))
     (input)
 }
 
-- 
2.43.0


From f2253f39d9de34d3af183cd4b5cca9a7174f88a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 17/21] fix: accept an escaped quote in a byte string

---
 src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3fe5653..d38137a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -455,7 +455,10 @@ fn bytestring_utf8(input: &str) -> JResult<&str, String> {
     );
 
     map_res_fail(f, |s| {
-        unescape(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
+        // A single quote must be escaped here, which JSON doesn't allow.
+        // Any quote in `s` is preceded by the backslash that escapes it.
+        unescape(s.replace("\\'", "'"))
+            .map_err(|_| parse_error(ErrorKind::MalformedText, s) )
     })
     (input)
 }
-- 
2.43.0


From c228a750790e74609a818e4759fbaac31482fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 18/21] fix: a byte string may contain an unescaped double
 quote

---
 src/parser/mod.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d38137a..be19717 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -444,6 +444,28 @@ fn bchar(input: &str) -> JResult<&str, &str> {
     (input)
 }
 
+// In a single-quoted string, a double quote may appear as it is and a single
+// quote must be escaped. JSON has it the other way around, so rewrite the
+// string to suit `unescape`.
+fn swap_quote_escapes(s: &str) -> String {
+    let mut out = String::with_capacity(s.len());
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '"' => out.push_str("\\\""),
+            '\\' => match chars.next() {
+                Some('\'') => out.push('\''),
+                escaped => {
+                    out.push('\\');
+                    out.extend(escaped);
+                }
+            },
+            c => out.push(c),
+        }
+    }
+    out
+}
+
 // This is basically identical to `text_literal` except that
 // it uses single-quotes.
 #[rustfmt::skip]
@@ -455,9 +477,7 @@ fn bytestring_utf8(input: &str) -> JResult<&str, String> {
     );
 
     map_res_fail(f, |s| {
-        // A single quote must be escaped here, which JSON doesn't allow.
-        // Any quote in `s` is preceded by the backslash that escapes it.
-        unescape(s.replace("\\'", "'"))
+        unescape(swap_quote_escapes(s))
             .map_err(|_| parse_error(ErrorKind::MalformedText, s) )
     })
     (input)
-- 
2.43.0


From e159c41e44dc234681996789f6477e592e4f17eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 19/21] fix: refuse a sign in a unicode escape

---
 src/parser/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index be19717..00a1e08 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -27,7 +27,7 @@
 //    |                   the lifetime is elided here
 #![allow(mismatched_lifetime_syntaxes)]
 
-use escape8259::unescape;
+use escape8259::{unescape, UnescapeError};
 use nom::{
     branch::alt,
     bytes::complete::{tag, take_while1},
@@ -444,6 +444,18 @@ fn bchar(input: &str) -> JResult<&str, &str> {
     (input)
 }
 
+// `unescape` reads the four characters after `\u` as a number, which may start
+// with a plus sign; RFC8259 allows only hex digits.
+fn unescape_checked(s: &str) -> Result<String, UnescapeError> {
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        if c == '\\' && chars.next() == Some('u') && chars.next() == Some('+') {
+            return Err(UnescapeError {});
+        }
+    }
+    unescape(s)
+}
+
 // In a single-quoted string, a double quote may appear as it is and a single
 // quote must be escaped. JSON has it the other way around, so rewrite the
 // string to suit `unescape`.
@@ -477,7 +489,7 @@ fn bytestring_utf8(input: &str) -> JResult<&str, String> {
     );
 
     map_res_fail(f, |s| {
-        unescape(swap_quote_escapes(s))
+        unescape_checked(&swap_quote_escapes(s))
             .map_err(|_| parse_error(ErrorKind::MalformedText, s) )
     })
     (input)
@@ -585,7 +597,7 @@ fn text_literal(input: &str) -> JResult<&str, String> {
     );
 
     map_res_fail(f, |s| {
-        unescape(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
+        unescape_checked(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
     })
     (input)
 }
-- 
2.43.0


From e6cf118cb3344908079feda304a369af6d2c3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 20/21] fix: a rule may define a group of one keyed entry
 without parentheses

---
 src/parser/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 00a1e08..9a4d883 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -34,7 +34,7 @@ use nom::{
     character::complete::{
         anychar, char as charx, digit0, digit1, hex_digit1, multispace1, not_line_ending, one_of,
     },
-    combinator::{all_consuming, map, map_res, opt, recognize, value as valuex},
+    combinator::{all_consuming, map, map_res, not, opt, recognize, value as valuex},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
 };
@@ -1177,7 +1177,11 @@ fn rule_val(input: &str) -> JResult<&str, RuleVal> {
         tag("="),
         ws,
         alt((
-            map(ty, RuleVal::AssignType),
+            // Followed by one of these, it's the start of a group entry.
+            map(
+                terminated(ty, not(preceded(ws, alt((tag(":"), tag("^"), tag("=>"), tag("*")))))),
+                RuleVal::AssignType
+            ),
             map(grpent, RuleVal::AssignGroup)
         ))
     );
-- 
2.43.0


From 56e3c646282bdae92db2b3d69138195c5d22dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 21/21] fix: report the malformed literal of a group member

---
 src/parser/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9a4d883..3501a88 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -719,7 +719,7 @@ fn grpent_member_tail(first_type1: Type1, input: &str) -> JResult<&str, Member>
         Type1::Simple(Type2::Value(_)) |
         Type1::Simple(Type2::Typename(_)) => {
             // Next, try to match ":" ws ty
-            if let Ok((input, tail_type)) = grpent_memberkey_tail(input) {
+            if let (input, Some(tail_type)) = opt(grpent_memberkey_tail)(input)? {
                 let member = assemble_basic_member(first_type1, tail_type);
                 match member {
                     Ok(member) => return Ok((input, member)),
@@ -736,12 +736,12 @@ fn grpent_member_tail(first_type1: Type1, input: &str) -> JResult<&str, Member>
     // should return a Member, with key: Some(MemberKey{val, cut})
     // and value: Type
 
-    if let Ok((input, matched_tuple)) = tuple((
+    if let (input, Some(matched_tuple)) = opt(tuple((
         opt(terminated(tag("^"), ws)),
         tag("=>"),
         ws,
         ty,
-    ))(input) {
+    )))(input)? {
         let (cut, _, _, val) = matched_tuple;
         let member = Member {
             key: Some(MemberKey {
@@ -757,12 +757,12 @@ fn grpent_member_tail(first_type1: Type1, input: &str) -> JResult<&str, Member>
     // should return a Member, with key: None and value: Type containing Vec<Type1>
     // This is a lot like the fn `ty` but we will concatenate this with first_type1
 
-    if let Ok((input, mut ty1s)) = many0(
+    if let (input, Some(mut ty1s)) = opt(many0(
         preceded(
             delimited(ws, tag("/"), ws),
             type1
         )
-    )(input) {
+    ))(input)? {
         // insert the first type1 (from the top of this function)
         ty1s.insert(0, first_type1);
         let member = Member {
-- 
2.43.0

