From 57f3e362d05d7de874c7e09285cb27da6550c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 01/11] fix: use the TD member names minItems and maxItems for
 array schemas

---
 src/thing.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/thing.rs b/src/thing.rs
index 9e41789..807ef9b 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -779,10 +779,13 @@ impl<DS, AS, OS> Default for DataSchemaSubtype<DS, AS, OS> {
 #[serde_as]
 #[skip_serializing_none]
 #[derive(Clone, Debug, PartialEq, Deserialize, Serialize)]
-#[serde(bound(
-    deserialize = "DS: Deserialize<'de>, AS: Deserialize<'de>, OS: Deserialize<'de>",
-    serialize = "DS: Serialize, AS: Serialize, OS: Serialize"
-))]
+#[serde(
+    rename_all = "camelCase",
+    bound(
+        deserialize = "DS: Deserialize<'de>, AS: Deserialize<'de>, OS: Deserialize<'de>",
+        serialize = "DS: Serialize, AS: Serialize, OS: Serialize"
+    )
+)]
 pub struct ArraySchema<DS, AS, OS> {
     /// The characteristics of the JSON array.
     ///
-- 
2.43.0


From 06380a9eab308d82623cc6398873b19d64f9e40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 02/11] fix: omit the model member of version info when unset

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 807ef9b..3fd19ae 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -644,6 +644,7 @@ where
 }
 
 /// Metadata of a `Thing` that provides version information about the _Thing Description_ document.
+#[skip_serializing_none]
 #[derive(Debug, Clone, Default, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct VersionInfo {
     /// The version indicator of this _Thing Description_ instance.
-- 
2.43.0


From 996c16b9b3862349231f5d64ba92982b7084665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 03/11] fix: accept HTTP responses without htv:headers

---
 src/protocol/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/http.rs b/src/protocol/http.rs
index 23c953e..5ce8f77 100644
--- a/src/protocol/http.rs
+++ b/src/protocol/http.rs
@@ -32,7 +32,7 @@ pub struct MessageHeader {
 #[derive(Debug, Clone, Deserialize, Serialize, Default, PartialEq, Eq, Hash)]
 pub struct Response {
     #[serde(rename = "htv:headers")]
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub headers: Vec<MessageHeader>,
     #[serde(rename = "htv:statusCodeValue")]
     pub status_code_value: Option<usize>,
-- 
2.43.0


From 3b573e3a8e8f73c79f4570c46030af30276a2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 04/11] fix: default qop to auth when parsing digest security
 schemes

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 3fd19ae..2e8a313 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1273,6 +1273,7 @@ impl SecurityAuthenticationLocation {
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct DigestSecurityScheme {
     /// Quality of protection.
+    #[serde(default)]
     pub qop: QualityOfProtection,
 
     /// The location of security authentication information.
-- 
2.43.0


From de99e31d552e9e2e52a59117ed4428e4ac6771c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 05/11] fix: accept data schemas mixing inclusive and exclusive
 bounds

---
 src/builder/data_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 55d3d4a..966ef9e 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3850,7 +3850,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                         (Some(x), _) if x.is_nan() => return Err(Error::NanMinMax),
                         (_, Some(x)) if x.is_nan() => return Err(Error::NanMinMax),
                         (Some(min), Some(max))
-                            if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
+                            if matches!(min.partial_cmp(&max), Some(Ordering::Greater)) =>
                         {
                             return Err(Error::InvalidMinMax)
                         }
@@ -3866,7 +3866,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                 }
                 Integer(integer) => match (integer.minimum, integer.maximum) {
                     (Some(min), Some(max))
-                        if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
+                        if matches!(min.partial_cmp(&max), Some(Ordering::Greater)) =>
                     {
                         return Err(Error::InvalidMinMax)
                     }
-- 
2.43.0


From 61d772160b05e5f02e28036cda51b43ef9a30c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 06/11] fix: reject NaN as multipleOf

---
 src/builder/data_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 966ef9e..3a1efeb 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3858,7 +3858,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
 
                     match number.multiple_of {
-                        Some(multiple_of) if multiple_of <= 0. => {
+                        Some(multiple_of) if multiple_of.is_nan() || multiple_of <= 0. => {
                             return Err(Error::InvalidMultipleOf)
                         }
                         _ => {}
-- 
2.43.0


From 92ffaa0791c14070a9e3d29134e9c2fd4b9b41c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 07/11] fix: validate the schema definitions of a thing

---
 src/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 69dc9f4..f1697dd 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -820,6 +820,9 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                     .then_some(())
                     .ok_or_else(|| Error::MissingSchemaDefinition(security_name.to_string()))
             })?;
+        schema_definitions
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
         let schema_definitions = schema_definitions
             .into_iter()
             .map(|(key, value)| value.try_into().map(|value| (key, value)))
-- 
2.43.0


From 63f922d22ad6def56838e84c89f9a18d8a9dc2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 08/11] fix: validate the data response schema of events

---
 src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builder.rs b/src/builder.rs
index f1697dd..c0d7e7d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -925,6 +925,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                     event.subscription.as_ref(),
                     event.data.as_ref(),
                     event.cancellation.as_ref(),
+                    event.data_response.as_ref(),
                 ]
             },
             |op| {
-- 
2.43.0


From 6c3c2440bfa0592d896f161c13986f03320c88bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 09/11] fix: validate the data schemas of URI variables

---
 src/builder.rs            |  5 +++++
 src/builder/affordance.rs | 21 +++++++++++++--------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index c0d7e7d..00e5e6b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -875,6 +875,11 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
         if invalid_uri_variables {
             return Err(Error::InvalidUriVariables);
         }
+        if let Some(uri_variables) = &uri_variables {
+            uri_variables
+                .values()
+                .try_for_each(CheckableDataSchema::check)?;
+        }
 
         let uri_variables = uri_variables
             .map(|uri_variables| {
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index a594013..5d67ad5 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -23,12 +23,12 @@ use super::{
         impl_inner_delegate_schema_builder_like_number,
         impl_inner_delegate_schema_builder_like_object,
         impl_inner_delegate_schema_builder_like_tuple, impl_inner_delegate_schema_builder_like_vec,
-        uri_variables_contains_arrays_objects, BuildableDataSchema, DataSchemaBuilder,
-        EnumerableDataSchema, IntegerDataSchemaBuilderLike, NumberDataSchemaBuilderLike,
-        ObjectDataSchemaBuilderLike, PartialDataSchema, PartialDataSchemaBuilder,
-        ReadableWriteableDataSchema, SpecializableDataSchema, TupleDataSchemaBuilderLike,
-        UncheckedDataSchemaFromOther, UncheckedDataSchemaMap, UnionDataSchema,
-        VecDataSchemaBuilderLike,
+        uri_variables_contains_arrays_objects, BuildableDataSchema, CheckableDataSchema,
+        DataSchemaBuilder, EnumerableDataSchema, IntegerDataSchemaBuilderLike,
+        NumberDataSchemaBuilderLike, ObjectDataSchemaBuilderLike, PartialDataSchema,
+        PartialDataSchemaBuilder, ReadableWriteableDataSchema, SpecializableDataSchema,
+        TupleDataSchemaBuilderLike, UncheckedDataSchemaFromOther, UncheckedDataSchemaMap,
+        UnionDataSchema, VecDataSchemaBuilderLike,
     },
     human_readable_info::{
         impl_delegate_buildable_hr_info, BuildableHumanReadableInfo, HumanReadableInfo,
@@ -2460,7 +2460,9 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
             return Err(Error::InvalidUriVariables);
         }
 
-        Ok(())
+        self.uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)
     }
 }
 
@@ -2486,7 +2488,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
             return Err(Error::InvalidUriVariables);
         }
 
-        Ok(())
+        self.partial
+            .uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)
     }
 }
 
-- 
2.43.0


From 93f4f1ab9c7261a9ce7dc48e25d8f3546bb309ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 10/11] fix: check the schemas named by additional responses of
 affordance forms

---
 src/builder.rs            | 42 +++++++++++++++++++++++++--------------
 src/builder/affordance.rs | 17 ++++++++++++----
 2 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 00e5e6b..70b27cc 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -845,11 +845,6 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             })
             .transpose()?;
 
-        let schema_definitions = schema_definitions
-            .is_empty()
-            .not()
-            .then_some(schema_definitions);
-
         let context = {
             // TODO: improve this
             if context.len() == 1 {
@@ -905,6 +900,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
         let actions = try_build_affordance(
             actions,
@@ -920,6 +916,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
         let events = try_build_affordance(
             events,
@@ -940,7 +937,13 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
+        let schema_definitions = schema_definitions
+            .is_empty()
+            .not()
+            .then_some(schema_definitions);
+
         let links = links
             .map(|links| links.into_iter().map(TryInto::try_into).collect())
             .transpose()?;
@@ -1043,15 +1046,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             }
         }
 
-        additional_responses
-            .iter()
-            .flat_map(|additional_response| additional_response.schema.as_ref())
-            .try_for_each(|schema| {
-                schema_definitions
-                    .contains_key(schema)
-                    .then_some(())
-                    .ok_or_else(|| Error::MissingSchemaDefinition(schema.clone()))
-            })?;
+        check_additional_responses(&additional_responses, schema_definitions)?;
         let additional_responses = additional_responses
             .is_empty()
             .not()
@@ -1689,13 +1684,29 @@ where
     }
 }
 
-fn try_build_affordance<A, F, IA, G, DS, T, H, const N: usize>(
+pub(crate) fn check_additional_responses<S>(
+    additional_responses: &[AdditionalExpectedResponse],
+    schema_definitions: &HashMap<String, S>,
+) -> Result<(), Error> {
+    additional_responses
+        .iter()
+        .flat_map(|additional_response| additional_response.schema.as_ref())
+        .try_for_each(|schema| {
+            schema_definitions
+                .contains_key(schema)
+                .then_some(())
+                .ok_or_else(|| Error::MissingSchemaDefinition(schema.clone()))
+        })
+}
+
+fn try_build_affordance<A, F, IA, G, DS, T, H, S, const N: usize>(
     affordances: Vec<AffordanceBuilder<A>>,
     affordance_type: AffordanceType,
     mut get_interaction: F,
     mut get_data_schemas: G,
     is_allowed_op: H,
     security_definitions: &HashMap<String, SecurityScheme>,
+    schema_definitions: &HashMap<String, S>,
 ) -> Result<Option<HashMap<String, T>>, Error>
 where
     F: FnMut(&A) -> &IA,
@@ -1719,6 +1730,7 @@ where
 
                     get_interaction(&affordance).check(
                         security_definitions,
+                        schema_definitions,
                         affordance_type,
                         &is_allowed_op,
                     )?;
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index 5d67ad5..0ef1394 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -18,6 +18,7 @@ use crate::{
 };
 
 use super::{
+    check_additional_responses,
     data_schema::{
         buildable_data_schema_delegate, impl_inner_delegate_schema_builder_like_integer,
         impl_inner_delegate_schema_builder_like_number,
@@ -2428,9 +2429,10 @@ where
 }
 
 pub(super) trait CheckableInteractionAffordanceBuilder {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, S>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2441,9 +2443,10 @@ pub(super) trait CheckableInteractionAffordanceBuilder {
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for PartialInteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, S>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2453,6 +2456,7 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         check_form_builders(
             &self.forms,
             security_definitions,
+            schema_definitions,
             affordance_type,
             is_allowed_op,
         )?;
@@ -2469,9 +2473,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for InteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, S>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2481,6 +2486,7 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         check_form_builders(
             &self.partial.forms,
             security_definitions,
+            schema_definitions,
             affordance_type,
             is_allowed_op,
         )?;
@@ -2495,9 +2501,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     }
 }
 
-pub(super) fn check_form_builders<Other, F>(
+pub(super) fn check_form_builders<Other, F, S>(
     forms: &[FormBuilder<Other, String, Other::Form>],
     security_definitions: &HashMap<String, SecurityScheme>,
+    schema_definitions: &HashMap<String, S>,
     affordance_type: AffordanceType,
     is_allowed_op: F,
 ) -> Result<(), Error>
@@ -2528,6 +2535,8 @@ where
                 })
             })
             .transpose()?;
+
+        check_additional_responses(&form.additional_responses, schema_definitions)?;
     }
 
     Ok(())
-- 
2.43.0


From 062c3e69d3c2b9f1a19a9366d9c563e4a6836835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:27 +0000
Subject: [PATCH 11/11] fix: reject string schemas whose minLength exceeds
 maxLength

---
 src/builder/data_schema.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 3a1efeb..99a0f75 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3876,7 +3876,11 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     properties: Some(properties),
                     ..
                 }) => stack.extend(properties.values()),
-                Object(_) | String(_) | Boolean | Null => {}
+                String(string) => match (string.min_length, string.max_length) {
+                    (Some(min), Some(max)) if min > max => return Err(Error::InvalidMinMax),
+                    _ => {}
+                },
+                Object(_) | Boolean | Null => {}
             }
         }
 
-- 
2.43.0

