From f4678fb4d904c47005d1dbd7e759a1cd8a6d4da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 1/6] fix: reject a rigid body whose velocities are cut off

`Some(option)?` never returned early, so an awake rigid body at the end of
the network data was reported without velocities instead of being rejected.
---
 src/network/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network/attributes.rs b/src/network/attributes.rs
index 8230eae..f5cd96f 100644
--- a/src/network/attributes.rs
+++ b/src/network/attributes.rs
@@ -1267,8 +1267,8 @@ impl AttributeDecoder {
         let mut angular_velocity = None;
 
         if !sleeping {
-            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
-            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
+            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
+            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
         }
 
         Some(RigidBody {
-- 
2.43.0


From 5cac7e2b7ab02e782a0dc9de0550c2d9baa15bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 2/6] fix: limit the nesting depth of header properties

A few kilobytes of nested struct or array properties overflowed the stack
and aborted the process, and every open array held a list of up to 25,000
elements. Nesting is now limited to 64 levels.
---
 src/header.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index c92479f..1803e59 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -78,9 +78,22 @@ enum ParserMode {
     Quirks,
 }
 
+/// Struct and array properties may nest this deep. Real replays nest them once or twice. Without a
+/// limit a small header can exhaust the stack, here or when the properties are later serialized,
+/// compared or dropped.
+const MAX_PROPERTY_DEPTH: usize = 64;
+
 fn parse_rdict(
     rlp: &mut CoreParser,
     mode: ParserMode,
+) -> Result<Vec<(String, HeaderProp)>, ParseError> {
+    parse_nested_rdict(rlp, mode, 0)
+}
+
+fn parse_nested_rdict(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: usize,
 ) -> Result<Vec<(String, HeaderProp)>, ParseError> {
     // The return type of this function is a key value vector because since there is no format
     // specification, we can't rule out duplicate keys.
@@ -97,6 +110,12 @@ fn parse_rdict(
         let _size = rlp.take_u32("property size")? as usize;
         let _ignored = rlp.take_data(4)?;
         let val = match kind {
+            "ArrayProperty" | "StructProperty" if depth == MAX_PROPERTY_DEPTH => {
+                return Err(ParseError::UnexpectedProperty(format!(
+                    "{} nested more than {} levels deep",
+                    kind, MAX_PROPERTY_DEPTH
+                )));
+            }
             "BoolProperty" => match mode {
                 // The size SHOULD be zero, but we're ignoring it.
                 ParserMode::Standard => rlp.take_data(1).map(bool_prop),
@@ -121,7 +140,7 @@ fn parse_rdict(
                     .parse_text()
                     .map(|kind| HeaderProp::Byte { kind, value: None }),
             },
-            "ArrayProperty" => array_property(rlp, mode),
+            "ArrayProperty" => array_property(rlp, mode, depth),
             "FloatProperty" => rlp
                 .take_bytes::<4>()
                 .map(f32::from_le_bytes)
@@ -138,7 +157,7 @@ fn parse_rdict(
             "StrProperty" => rlp.parse_text().map(HeaderProp::Str),
             "StructProperty" => {
                 let name = rlp.parse_str()?;
-                let fields = parse_rdict(rlp, mode)?;
+                let fields = parse_nested_rdict(rlp, mode, depth + 1)?;
                 Ok(HeaderProp::Struct {
                     name: String::from(name),
                     fields,
@@ -157,9 +176,13 @@ fn bool_prop(data: &[u8]) -> HeaderProp {
     HeaderProp::Bool(data[0] == 1)
 }
 
-fn array_property(rlp: &mut CoreParser, mode: ParserMode) -> Result<HeaderProp, ParseError> {
+fn array_property(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: usize,
+) -> Result<HeaderProp, ParseError> {
     let size = rlp.take_i32("array property size")?;
-    let arr = CoreParser::repeat(size as usize, || parse_rdict(rlp, mode))?;
+    let arr = CoreParser::repeat(size as usize, || parse_nested_rdict(rlp, mode, depth + 1))?;
     Ok(HeaderProp::Array(arr))
 }
 
-- 
2.43.0


From d40e90e6eae49c98af84ee1103a0fbef3f301ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 3/6] fix: do not overflow the byte position of inputs beyond 2
 GiB

The position is only used in error messages; advancing it past 31 bits
panicked in builds with overflow checks.
---
 src/core_parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core_parser.rs b/src/core_parser.rs
index d033734..9eebbbc 100644
--- a/src/core_parser.rs
+++ b/src/core_parser.rs
@@ -34,7 +34,7 @@ impl<'a> CoreParser<'a> {
                     N as i32,
                     self.data.len() as i32,
                 ))?;
-        self.col += N as i32;
+        self.col = self.col.saturating_add(N as i32);
         self.data = tail;
         Ok(*result)
     }
@@ -47,7 +47,7 @@ impl<'a> CoreParser<'a> {
                 size as i32,
                 self.data.len() as i32,
             ))?;
-        self.col += size as i32;
+        self.col = self.col.saturating_add(size as i32);
         self.data = tail;
         Ok(head)
     }
@@ -61,7 +61,7 @@ impl<'a> CoreParser<'a> {
                     N as i32,
                     self.data.len() as i32,
                 ))?;
-        self.col += N as i32;
+        self.col = self.col.saturating_add(N as i32);
         self.data = tail;
         Ok(*head)
     }
-- 
2.43.0


From e8de0f446cf425ba4c46cea11e5ba267f8b5a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 4/6] fix: do not take object 0 for a product class the replay
 lacks

---
 src/network/attributes.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/network/attributes.rs b/src/network/attributes.rs
index f5cd96f..cd79cc2 100644
--- a/src/network/attributes.rs
+++ b/src/network/attributes.rs
@@ -447,30 +447,20 @@ pub struct LogoData {
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) struct ProductValueDecoder {
     version: VersionTriplet,
-    color_ind: ObjectId,
-    painted_ind: ObjectId,
-    special_edition_ind: ObjectId,
-    team_edition_ind: ObjectId,
-    title_ind: ObjectId,
+    color_ind: Option<ObjectId>,
+    painted_ind: Option<ObjectId>,
+    special_edition_ind: Option<ObjectId>,
+    team_edition_ind: Option<ObjectId>,
+    title_ind: Option<ObjectId>,
 }
 
 impl ProductValueDecoder {
     pub fn create(version: VersionTriplet, object_index: &ObjectIndex) -> Self {
-        let color_ind = object_index
-            .by_name("TAGame.ProductAttribute_UserColor_TA")
-            .unwrap_or_default();
-        let painted_ind = object_index
-            .by_name("TAGame.ProductAttribute_Painted_TA")
-            .unwrap_or_default();
-        let title_ind = object_index
-            .by_name("TAGame.ProductAttribute_TitleID_TA")
-            .unwrap_or_default();
-        let special_edition_ind = object_index
-            .by_name("TAGame.ProductAttribute_SpecialEdition_TA")
-            .unwrap_or_default();
-        let team_edition_ind = object_index
-            .by_name("TAGame.ProductAttribute_TeamEdition_TA")
-            .unwrap_or_default();
+        let color_ind = object_index.by_name("TAGame.ProductAttribute_UserColor_TA");
+        let painted_ind = object_index.by_name("TAGame.ProductAttribute_Painted_TA");
+        let title_ind = object_index.by_name("TAGame.ProductAttribute_TitleID_TA");
+        let special_edition_ind = object_index.by_name("TAGame.ProductAttribute_SpecialEdition_TA");
+        let team_edition_ind = object_index.by_name("TAGame.ProductAttribute_TeamEdition_TA");
 
         ProductValueDecoder {
             version,
@@ -488,6 +478,8 @@ impl ProductValueDecoder {
         obj_ind: ObjectId,
         buf: &mut [u8],
     ) -> Option<ProductValue> {
+        // A class missing from the replay has no object, so no product can name it
+        let obj_ind = Some(obj_ind);
         if obj_ind == self.color_ind {
             if self.version >= VersionTriplet(868, 23, 8) {
                 bits.read_u32().map(ProductValue::NewColor)
-- 
2.43.0


From dfa1aba02c137c3bcd12246a59b8003ea0d305f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 5/6] fix: do not copy attributes for objects that share a name

---
 src/network/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network/mod.rs b/src/network/mod.rs
index 6204bd7..d4ec723 100644
--- a/src/network/mod.rs
+++ b/src/network/mod.rs
@@ -204,6 +204,10 @@ fn net_traversal(
     acc_attrs.clear();
     for object in object_index.hierarchy(object_name) {
         match object_ind_attrs.get(&object) {
+            // Objects may share a name, in which case the attributes have been collected already.
+            // Copying them just to discard them would make the work grow with the number of objects
+            // times the number of attributes.
+            Some(_) if parent_stack.is_empty() => return,
             Some(attrs) => {
                 acc_attrs.extend(attrs.iter().map(|(x, y)| (*x, *y)));
                 break;
-- 
2.43.0


From 4e710d61e4f300ab186a8fc8116e169abc1bc9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 6/6] fix: hash object names with a random key

Names of objects come from the replay. FNV has no key, so it is easy to find
names that share one bucket: 16 000 such names (220 kB) took 0.4 s to index,
and 16 000 placed objects (1 MB) 1.7 s.
---
 src/network/object_index.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/network/object_index.rs b/src/network/object_index.rs
index 2df14ae..0adf8ed 100644
--- a/src/network/object_index.rs
+++ b/src/network/object_index.rs
@@ -1,5 +1,5 @@
 use crate::{data::PARENT_CLASSES, ObjectId};
-use fnv::FnvHashMap;
+use std::collections::HashMap;
 
 use super::normalize_object;
 
@@ -7,13 +7,16 @@ use super::normalize_object;
 ///
 /// The exact same name can appear multiple times in body.objects. In that
 /// case, the first occurrence is used for hierarchy lookups.
+///
+/// Names come from the replay, so they are hashed with a random key: names chosen to collide in an
+/// unkeyed hash would make the index take quadratic time.
 pub(crate) struct ObjectIndex<'a> {
-    name_index: FnvHashMap<&'a str, ObjectId>,
+    name_index: HashMap<&'a str, ObjectId>,
 }
 
 impl<'a> ObjectIndex<'a> {
     pub(crate) fn new(objects: &'a [String]) -> Self {
-        let mut name_index: FnvHashMap<&str, ObjectId> = FnvHashMap::default();
+        let mut name_index: HashMap<&str, ObjectId> = HashMap::new();
 
         for (i, name) in objects.iter().enumerate() {
             let val = ObjectId(i as i32);
-- 
2.43.0

