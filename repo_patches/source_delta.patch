From 55c2ccf14098c8b9b7175e67afcd6a8827a24af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 01/48] fix: train mtr contextual bandits on examples without
 shared features

---
 reductionml-core/src/reductions/cb_adf.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/reductions/cb_adf.rs b/reductionml-core/src/reductions/cb_adf.rs
index 1c0fac5..e81521f 100644
--- a/reductionml-core/src/reductions/cb_adf.rs
+++ b/reductionml-core/src/reductions/cb_adf.rs
@@ -214,7 +214,13 @@ impl ReductionImpl for CBAdfReduction {
                         shared_feats.remove(action);
                     }
                     None => {
-                        todo!()
+                        let action = cb_adf_features.actions.get_mut(cb_label.action).unwrap();
+                        self.regressor.learn(
+                            &mut Features::SparseSimpleRef(action),
+                            &simple_label.into(),
+                            depth_info,
+                            0.into(),
+                        );
                     }
                 }
             }
-- 
2.43.0


From 5da31e4c38976c5c6754915cbec6a0ab582043d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 02/48] fix: elementwise interaction of vectors that wrap
 around the feature space

---
 .../src/reductions/elementwise_interaction.rs          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 11f8136..7c429bb 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -155,13 +155,15 @@ fn elementwise_multiply(
             }
         };
 
-        let idx1 = u32::from(idx1) - u32::from(base_one);
-        let idx2 = u32::from(idx2) - u32::from(base_two);
+        // Offsets within the vectors, which can wrap around the end of the feature space.
+        let idx1 = u32::from(idx1).wrapping_sub(u32::from(base_one)) & u32::from(mask);
+        let idx2 = u32::from(idx2).wrapping_sub(u32::from(base_two)) & u32::from(mask);
 
-        let dest_index = u32::from(composite_base) + idx1;
+        let dest_index =
+            FeatureHash::from(u32::from(composite_base).wrapping_add(idx1)).mask(mask);
 
         if idx1 == idx2 {
-            dest_iter.add_feature(dest_index.into(), val1 * val2);
+            dest_iter.add_feature(dest_index, val1 * val2);
             cur_1 = ns_one_it.next();
             cur_2 = ns_two_it.next();
         } else if idx1 < idx2 {
-- 
2.43.0


From 66a5f64d9539cf5eeeebc07fc1f1b4baac8de320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:18 +0000
Subject: [PATCH 03/48] fix: learn mtr contextual bandit examples with the
 features that are scored

The regressor was scored on the action's features followed by the shared ones but, for mtr, learned
on the shared features followed by the action's. With an interaction of a namespace with itself
these are different features.
---
 reductionml-core/src/reductions/cb_adf.rs | 35 +++++++++--------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/reductionml-core/src/reductions/cb_adf.rs b/reductionml-core/src/reductions/cb_adf.rs
index e81521f..1c744e8 100644
--- a/reductionml-core/src/reductions/cb_adf.rs
+++ b/reductionml-core/src/reductions/cb_adf.rs
@@ -201,27 +201,20 @@ impl ReductionImpl for CBAdfReduction {
                     * (self.mtr_state.event_sum as f32 / self.mtr_state.action_sum as f32);
 
                 let simple_label = SimpleLabel::new(cost, weight);
-                match cb_adf_features.shared.as_mut() {
-                    Some(shared_feats) => {
-                        let action = cb_adf_features.actions.get(cb_label.action).unwrap();
-                        shared_feats.append(action);
-                        self.regressor.learn(
-                            &mut Features::SparseSimpleRef(shared_feats),
-                            &simple_label.into(),
-                            depth_info,
-                            0.into(),
-                        );
-                        shared_feats.remove(action);
-                    }
-                    None => {
-                        let action = cb_adf_features.actions.get_mut(cb_label.action).unwrap();
-                        self.regressor.learn(
-                            &mut Features::SparseSimpleRef(action),
-                            &simple_label.into(),
-                            depth_info,
-                            0.into(),
-                        );
-                    }
+                // The example learned is the one that is scored: the action's features followed by
+                // the shared ones.
+                let action = cb_adf_features.actions.get_mut(cb_label.action).unwrap();
+                if let Some(shared_feats) = &cb_adf_features.shared {
+                    action.append(shared_feats);
+                }
+                self.regressor.learn(
+                    &mut Features::SparseSimpleRef(action),
+                    &simple_label.into(),
+                    depth_info,
+                    0.into(),
+                );
+                if let Some(shared_feats) = &cb_adf_features.shared {
+                    action.remove(shared_feats);
                 }
             }
         }
-- 
2.43.0


From cf8835d1b0036de3d05513cbea09917052c33548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 04/48] fix: reject interactions that are not pairs or triples
 with an error

Workspace::new panicked on a configuration with an interaction of another length.
---
 reductionml-core/src/interactions.rs    | 23 ++++++++++++++++-------
 reductionml-core/src/reductions/coin.rs |  2 +-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/reductionml-core/src/interactions.rs b/reductionml-core/src/interactions.rs
index c634df8..2ec9887 100644
--- a/reductionml-core/src/interactions.rs
+++ b/reductionml-core/src/interactions.rs
@@ -1,7 +1,11 @@
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
 
-use crate::{hash::hash_bytes, sparse_namespaced_features::Namespace};
+use crate::{
+    error::{Error, Result},
+    hash::hash_bytes,
+    sparse_namespaced_features::Namespace,
+};
 
 #[derive(Serialize, Deserialize, Clone, JsonSchema, Debug)]
 pub enum NamespaceDef {
@@ -40,7 +44,16 @@ type InteractionTriple = (Namespace, Namespace, Namespace);
 pub fn compile_interactions(
     interactions: &[Interaction],
     hash_seed: u32,
-) -> (Vec<InteractionPair>, Vec<InteractionTriple>) {
+) -> Result<(Vec<InteractionPair>, Vec<InteractionTriple>)> {
+    if interactions
+        .iter()
+        .any(|interaction| interaction.len() != 2 && interaction.len() != 3)
+    {
+        return Err(Error::InvalidConfiguration(
+            "Invalid interaction. Only pairs and triples are supported".to_owned(),
+        ));
+    }
+
     let pairs: Vec<(Namespace, Namespace)> = interactions
         .iter()
         .filter(|interaction| interaction.len() == 2)
@@ -63,9 +76,5 @@ pub fn compile_interactions(
         })
         .collect();
 
-    if pairs.len() + triples.len() != interactions.len() {
-        panic!("Invalid interaction. Only pairs and triples are supported")
-    }
-
-    (pairs, triples)
+    Ok((pairs, triples))
 }
diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index 99d0b65..e868833 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -113,7 +113,7 @@ impl CoinRegressor {
         num_models_above: ModelIndex,
     ) -> Result<CoinRegressor> {
         let (pairs, triples) =
-            compile_interactions(global_config.interactions(), global_config.hash_seed());
+            compile_interactions(global_config.interactions(), global_config.hash_seed())?;
 
         let (min_label, max_label) = match config.loss_function {
             LossFunction::Squared(_) => (0.0, 0.0),
-- 
2.43.0


From 492e8a9b7f8ceccb370beee019cd2ace790df9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 05/48] fix: combine features of a repeated namespace once in
 cubic interactions

With the second and third namespace equal, the features of the third were skipped by the position
of the feature of the first: combinations were dropped (A,B,B) or repeated (A,A,A).
---
 reductionml-core/src/weights.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/weights.rs b/reductionml-core/src/weights.rs
index ed44568..ec97a32 100644
--- a/reductionml-core/src/weights.rs
+++ b/reductionml-core/src/weights.rs
@@ -64,12 +64,13 @@ macro_rules! generate_foreach_feature_func {
                         let halfhash1 =
                             (FNV_PRIME as u64).wrapping_mul(u32::from(feat1.0) as u64) as u32;
                         if let Some(ns2) = features.get_namespace(*ns2) {
-                            for feat2 in ns2.iter().skip(if same_ns { i } else { 0 }) {
+                            let skip2 = if same_ns { i } else { 0 };
+                            for (j, feat2) in ns2.iter().enumerate().skip(skip2) {
                                 let halfhash2 = (FNV_PRIME as u64)
                                     .wrapping_mul((halfhash1 ^ u32::from(feat2.0)) as u64)
                                     as u32;
                                 if let Some(ns3) = features.get_namespace(*ns3) {
-                                    for feat3 in ns3.iter().skip(if same_ns2 { i } else { 0 }) {
+                                    for feat3 in ns3.iter().skip(if same_ns2 { j } else { 0 }) {
                                         let idx = FeatureHash::from(halfhash2 ^ u32::from(feat3.0))
                                             .mask(masker);
                                         let model_weight =
-- 
2.43.0


From 00a841755517a91e92cbc927ff17b1d258002642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 06/48] fix: reject a numBits that the feature index cannot
 represent with an error

Workspace::new overflowed the size of the feature space for numBits above 31: a panic in debug
builds and a model of the wrong size in release builds.
---
 reductionml-core/src/workspace.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index e4e6ed1..76b427f 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -123,6 +123,14 @@ fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) {
 
 impl Workspace {
     pub fn new(config: Configuration) -> Result<Workspace> {
+        // Feature indices are 32 bits wide and the size of the feature space must fit too.
+        if config.global_config.num_bits() > 31 {
+            return Err(Error::InvalidConfiguration(format!(
+                "numBits must be at most 31, but is {}",
+                config.global_config.num_bits()
+            )));
+        }
+
         let reduction_config = crate::reduction_factory::parse_config(&config.entry_reduction)?;
         let entry_reduction = crate::reduction_factory::create_reduction(
             reduction_config.as_ref(),
-- 
2.43.0


From fffe6c3d867e72c91a8d736f3a5ee7292128a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 07/48] fix: report a model that cannot be read as an error

Workspace::create_from_model returns a Result but panicked on every byte string that is not a model.
---
 reductionml-core/src/dense_weights.rs | 10 ++++++----
 reductionml-core/src/workspace.rs     |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/reductionml-core/src/dense_weights.rs b/reductionml-core/src/dense_weights.rs
index cb0805a..af7ad3c 100644
--- a/reductionml-core/src/dense_weights.rs
+++ b/reductionml-core/src/dense_weights.rs
@@ -159,12 +159,14 @@ impl SparseF32Vec {
         }
     }
 
-    fn to_dense(&self) -> Vec<f32> {
+    fn to_dense(&self) -> Result<Vec<f32>> {
         let mut vec = vec![0.0; self.len as usize];
         for (index, value) in self.non_zero_value_and_index_pairs.iter() {
-            vec[*index] = *value;
+            *vec.get_mut(*index).ok_or_else(|| {
+                Error::InvalidArgument(format!("Weight index {} is out of range", index))
+            })? = *value;
         }
-        vec
+        Ok(vec)
     }
 }
 
@@ -184,7 +186,7 @@ where
     D: Deserializer<'de>,
 {
     let sparse_vec = SparseF32Vec::deserialize(deserializer)?;
-    Ok(sparse_vec.to_dense())
+    sparse_vec.to_dense().map_err(serde::de::Error::custom)
 }
 
 impl DenseWeights {
diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index 76b427f..24332fe 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -147,8 +147,10 @@ impl Workspace {
 
     // TODO move to bincode or msgpack
     pub fn create_from_model(json: &[u8]) -> Result<Workspace> {
-        let r = flexbuffers::Reader::get_root(json).unwrap();
-        Ok(Workspace::deserialize(r).unwrap())
+        let r = flexbuffers::Reader::get_root(json)
+            .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))?;
+        Workspace::deserialize(r)
+            .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))
     }
 
     // TODO move to bincode or msgpack
-- 
2.43.0


From ef0b7ee6d5c4e0af61f3d46c003076a9a83a98e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 08/48] fix: report weights of a JSON model that cannot be read
 as an error

---
 reductionml-core/src/workspace.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index 24332fe..4a42f92 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -66,7 +66,7 @@ impl TryInto<Configuration> for serde_yaml::Value {
 }
 
 // We need to search until we find an object with the keys weights, feature_index_size, model_index_size, feature_state_size, model_index_size_shift, feature_state_size_shift
-fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) {
+fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) -> serde_json::Result<()> {
     match value {
         serde_json::Value::Object(map) => {
             if map.contains_key("weights")
@@ -76,21 +76,22 @@ fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) {
                 && map.contains_key("model_index_size_shift")
                 && map.contains_key("feature_state_size_shift")
             {
-                let wts: DenseWeightsWithNDArray = serde_json::from_value(value.clone()).unwrap();
-                *value = serde_json::to_value(wts.to_dense_weights()).unwrap();
-                return;
+                let wts: DenseWeightsWithNDArray = serde_json::from_value(value.clone())?;
+                *value = serde_json::to_value(wts.to_dense_weights())?;
+                return Ok(());
             }
             for (_, v) in map {
-                rewrite_json_ndarray_to_sparse(v);
+                rewrite_json_ndarray_to_sparse(v)?;
             }
         }
         serde_json::Value::Array(vec) => {
             for v in vec {
-                rewrite_json_ndarray_to_sparse(v);
+                rewrite_json_ndarray_to_sparse(v)?;
             }
         }
         _ => (),
     }
+    Ok(())
 }
 
 fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) {
@@ -172,7 +173,7 @@ impl Workspace {
         let mut value: serde_json::Value = serde_json::from_value(json.clone()).map_err(|e| {
             Error::InvalidConfiguration(format!("Failed to parse configuration: {e}"))
         })?;
-        rewrite_json_ndarray_to_sparse(&mut value);
+        rewrite_json_ndarray_to_sparse(&mut value)?;
         serde_json::from_value(value)
             .map_err(|e| Error::InvalidConfiguration(format!("Failed to parse model: {e}")))
     }
-- 
2.43.0


From 4fea1ffd7cbc0a95b59621b68c08337c5c6eb4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 09/48] fix: reserve space in a namespace that is already large
 enough

The subtraction overflowed when the capacity was larger than the size asked for, which is the case
for every pooled object that has held more features before.
---
 reductionml-core/src/sparse_namespaced_features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index d9490b4..7201a30 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -130,9 +130,9 @@ impl SparseFeaturesNamespace {
 
     pub fn reserve(&mut self, size: usize) {
         self.feature_indices
-            .reserve_exact(size - self.feature_indices.capacity());
+            .reserve_exact(size.saturating_sub(self.feature_indices.len()));
         self.feature_values
-            .reserve(size - self.feature_values.capacity());
+            .reserve(size.saturating_sub(self.feature_values.len()));
     }
 
     pub fn add_feature(&mut self, feature_index: FeatureIndex, feature_value: f32) {
-- 
2.43.0


From 3ba0cfde13e819ca4d39591eeaa3816138d58941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 10/48] fix: make a namespace that is set present

A namespace built with SparseFeaturesNamespace::new and set was iterated over but reported as absent.
---
 reductionml-core/src/sparse_namespaced_features.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index 7201a30..e982767 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -366,8 +366,9 @@ impl SparseFeatures {
     pub fn set_namespace(
         &mut self,
         namespace: Namespace,
-        namespace_features: SparseFeaturesNamespace,
+        mut namespace_features: SparseFeaturesNamespace,
     ) {
+        namespace_features.set_active(true);
         self.namespaces.insert(namespace, namespace_features);
     }
 
-- 
2.43.0


From dbdad049581c6ab6a708724baabe094f04b4465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 11/48] fix: compare features by the namespaces that hold any

Removing shared features deactivates a namespace that was present but empty in the action, so the
check that predict and learn leave the example unchanged failed for an example with such a namespace.
---
 reductionml-core/src/sparse_namespaced_features.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index e982767..410a4d9 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -165,6 +165,10 @@ impl SparseFeaturesNamespace {
         self.active
     }
 
+    fn has_features(&self) -> bool {
+        self.active && !self.feature_indices.is_empty()
+    }
+
     fn set_active(&mut self, active: bool) {
         self.active = active;
     }
@@ -221,14 +225,14 @@ impl AbsDiffEq for SparseFeatures {
         let left_ns: BTreeSet<Namespace> = self
             .namespaces
             .iter()
-            .filter_map(|(ns, ns_vals)| if ns_vals.is_active() { Some(ns) } else { None })
+            .filter_map(|(ns, ns_vals)| ns_vals.has_features().then_some(ns))
             .cloned()
             .collect();
 
         let right_ns = other
             .namespaces
             .iter()
-            .filter_map(|(ns, ns_vals)| if ns_vals.is_active() { Some(ns) } else { None })
+            .filter_map(|(ns, ns_vals)| ns_vals.has_features().then_some(ns))
             .cloned()
             .collect();
         if left_ns != right_ns {
-- 
2.43.0


From d1f44c586d63ebc7db96b4983fc2568547e2c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 12/48] fix: parse a text example whose last namespace is empty

'1 |' panicked: reading the line trims the space that would have made it the default namespace.
---
 reductionml-core/src/parsers/vw_text_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index fbe7fc2..a6d828b 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -238,7 +238,8 @@ fn parse_namespace_inline(
         // Anonymous namespace
         (" ", 1.0)
     } else {
-        let namespace_info_token = tokens.next().unwrap();
+        // A segment of nothing but whitespace is the default namespace without any features.
+        let namespace_info_token = tokens.next().unwrap_or(" ");
         let mut namespace_info_tokens = namespace_info_token.split(':');
         let name = namespace_info_tokens.next().unwrap();
         let value = match namespace_info_tokens.next() {
-- 
2.43.0


From b31dcef5a18a86d388e8c8f43d9d95561ba8d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 13/48] fix: report malformed labels and namespace values in
 text examples as errors

parse_chunk returns a Result but panicked, which leaves 'reml train' hanging when it happens in a
parsing thread.
---
 .../src/parsers/vw_text_parser.rs             | 41 +++++++++++++------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index a6d828b..692b347 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -132,23 +132,29 @@ struct TextParseResult<'a> {
     label: Option<TextLabel>,
 }
 
+fn parse_float(token: &str) -> Result<f32> {
+    fast_float::parse(token)
+        .map_err(|_| Error::ParserError(format!("Expected a number but found '{}'", token)))
+}
+
 fn parse_label(tokens: &[&str], label_type: LabelType) -> Result<Option<TextLabel>> {
     match label_type {
         LabelType::Simple => match tokens.len() {
             0 => Ok(None),
-            1 => Ok(Some(TextLabel::Simple(
-                fast_float::parse(tokens[0]).unwrap(),
-                None,
-            ))),
+            1 => Ok(Some(TextLabel::Simple(parse_float(tokens[0])?, None))),
             2 => Ok(Some(TextLabel::Simple(
-                fast_float::parse(tokens[0]).unwrap(),
-                Some(fast_float::parse(tokens[1]).unwrap()),
+                parse_float(tokens[0])?,
+                Some(parse_float(tokens[1])?),
             ))),
             // Initial not currently supported...
-            3 => todo!(),
-            _ => todo!(),
+            _ => Err(Error::ParserError(format!(
+                "Expected a label of at most two numbers but found '{}'",
+                tokens.join(" ")
+            ))),
         },
-        LabelType::Binary => todo!(),
+        LabelType::Binary => Err(Error::ParserError(
+            "Binary labels are not supported in the text format".to_owned(),
+        )),
         LabelType::CB => match tokens.iter().next() {
             None => Ok(Some(TextLabel::CB(CBTextLabel {
                 shared: false,
@@ -159,10 +165,19 @@ fn parse_label(tokens: &[&str], label_type: LabelType) -> Result<Option<TextLabe
                 acp: None,
             }))),
             Some(value) => {
+                let invalid = || {
+                    Error::ParserError(format!(
+                        "Expected a label of the form action:cost:probability but found '{}'",
+                        value
+                    ))
+                };
                 let mut tokens = value.split(':');
-                let action = tokens.next().unwrap().parse().unwrap();
-                let cost = fast_float::parse(tokens.next().unwrap()).unwrap();
-                let probability = fast_float::parse(tokens.next().unwrap()).unwrap();
+                let action = tokens
+                    .next()
+                    .and_then(|token| token.parse().ok())
+                    .ok_or_else(invalid)?;
+                let cost = parse_float(tokens.next().ok_or_else(invalid)?)?;
+                let probability = parse_float(tokens.next().ok_or_else(invalid)?)?;
 
                 // TODO: check that there are no more tokens
 
@@ -243,7 +258,7 @@ fn parse_namespace_inline(
         let mut namespace_info_tokens = namespace_info_token.split(':');
         let name = namespace_info_tokens.next().unwrap();
         let value = match namespace_info_tokens.next() {
-            Some(value) => fast_float::parse(value).unwrap(),
+            Some(value) => parse_float(value)?,
             None => 1.0,
         };
 
-- 
2.43.0


From ff90e08045829e9511130fe060879dfc59638918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 14/48] fix: extract the features of every occurrence of a
 namespace

extract_feature_names kept only the last segment of a namespace that occurs more than once, as shared
namespaces of multi line examples do, and panicked on a namespace without features.
---
 .../src/parsers/vw_text_parser.rs             | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index 692b347..c27e1a3 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -298,12 +298,13 @@ fn parse_namespace_info_token(namespace_segment: &str) -> Result<(&str, f32)> {
 
 // "Consumes" some amount of input and returns the namespace info and the remaining input
 fn parse_namespace_info(input: &str) -> Result<(&str, (ParsedNamespaceInfo, f32))> {
-    let first_char_is_space = input.starts_with(' ');
     // Extract up until the first space
-    if first_char_is_space {
+    if input.trim().is_empty() {
+        Ok(("", (ParsedNamespaceInfo::Default, 1.0)))
+    } else if input.starts_with(' ') {
         Ok((&input[1..], (ParsedNamespaceInfo::Default, 1.0)))
     } else {
-        let input_until_first_space = input.find(' ').unwrap();
+        let input_until_first_space = input.find(' ').unwrap_or(input.len());
         let namespace_info_token = &input[..input_until_first_space];
         let (ns_name, ns_value) = parse_namespace_info_token(namespace_info_token)?;
         Ok((
@@ -513,20 +514,24 @@ impl TextModeParser for VwTextParser {
         &self,
         chunk: &'a str,
     ) -> Result<std::collections::HashMap<ParsedNamespaceInfo<'a>, Vec<ParsedFeature<'a>>>> {
+        // A namespace can occur more than once: in different lines or in several segments of one.
+        let mut features: std::collections::HashMap<_, Vec<_>> = Default::default();
+        let mut add_segments = |text: &'a str| -> Result<()> {
+            for segment in text.split('|').skip(1) {
+                let (namespace, segment_features) = extract_namespace_features(segment)?;
+                features
+                    .entry(namespace)
+                    .or_default()
+                    .extend(segment_features);
+            }
+            Ok(())
+        };
         if self.is_multiline() {
-            chunk
-                .lines()
-                .flat_map(|line| {
-                    let mut segments = line.split('|');
-                    let _label_section = segments.next().unwrap();
-                    segments.map(extract_namespace_features)
-                })
-                .collect()
+            chunk.lines().try_for_each(&mut add_segments)?;
         } else {
-            let mut segments = chunk.split('|');
-            let _label_section = segments.next().unwrap();
-            segments.map(extract_namespace_features).collect()
+            add_segments(chunk)?;
         }
+        Ok(features)
     }
 }
 
-- 
2.43.0


From 764fb6255d568647d7309213ef5c65ffd79b36f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 15/48] fix: default the weight of a JSON label to one as
 documented

---
 reductionml-core/src/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reductionml-core/src/types.rs b/reductionml-core/src/types.rs
index a7cb81a..151b6e9 100644
--- a/reductionml-core/src/types.rs
+++ b/reductionml-core/src/types.rs
@@ -78,9 +78,14 @@ pub enum PredictionType {
 #[derive(Clone, Copy, Debug, Serialize, Deserialize)]
 pub struct SimpleLabel {
     value: f32,
+    #[serde(default = "default_label_weight")]
     weight: f32,
 }
 
+fn default_label_weight() -> f32 {
+    1.0
+}
+
 impl SimpleLabel {
     pub fn new(value: f32, weight: f32) -> Self {
         SimpleLabel { value, weight }
-- 
2.43.0


From 9e3dbc446bc05e1f9419d101760fb4b2e7a3764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 16/48] fix: wrap the hashes of anonymous features around the
 hash space

---
 reductionml-core/src/inverse_hash_table.rs  | 2 +-
 reductionml-core/src/parsers.rs             | 2 +-
 reductionml-core/src/parsers/json_parser.rs | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/inverse_hash_table.rs b/reductionml-core/src/inverse_hash_table.rs
index eda9277..6672d3a 100644
--- a/reductionml-core/src/inverse_hash_table.rs
+++ b/reductionml-core/src/inverse_hash_table.rs
@@ -48,7 +48,7 @@ impl Feature {
             }
             Feature::Anonymous { namespace, offset } => {
                 let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
-                (namespace_hash + offset).into()
+                namespace_hash.wrapping_add(*offset).into()
             }
             // In a very cool property hashing of the interacted feature does not need to take into account bit masking until the very end
             // In fact, the produced result is idenitical if interim values are masked or just the final value.
diff --git a/reductionml-core/src/parsers.rs b/reductionml-core/src/parsers.rs
index 9850247..e8f55a8 100644
--- a/reductionml-core/src/parsers.rs
+++ b/reductionml-core/src/parsers.rs
@@ -26,7 +26,7 @@ impl<'a> ParsedFeature<'a> {
                 let name_key_hash = hash_bytes(name.as_bytes(), *namespace_hash);
                 FeatureHash::from(hash_bytes(value.as_bytes(), name_key_hash))
             }
-            ParsedFeature::Anonymous { offset } => (*namespace_hash + offset).into(),
+            ParsedFeature::Anonymous { offset } => namespace_hash.wrapping_add(*offset).into(),
         }
     }
 }
diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index b11fb4d..db6e29c 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -28,8 +28,9 @@ pub fn to_features(
                     Value::Str(_) => todo!(),
                     Value::Array(ar) => match ar.first() {
                         Some(Value::Number(_)) => {
-                            let it = (u32::from(ns_hash)..(u32::from(ns_hash) + ar.len() as u32))
-                                .map(|x| FeatureHash::from(x).mask(mask));
+                            let it = (0..ar.len() as u32).map(|offset| {
+                                FeatureHash::from(ns_hash.wrapping_add(offset)).mask(mask)
+                            });
                             ns.add_features_with_iter(
                                 it,
                                 ar.iter().map(|x| {
-- 
2.43.0


From 991c30ec925fadd447d1a0779cc21747e5f6ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 17/48] fix: accept an empty array of features in JSON examples

---
 reductionml-core/src/parsers/json_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index db6e29c..e94dc1e 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -50,7 +50,7 @@ pub fn to_features(
                             }
                         }
                         Some(_) => panic!("Not a number or string"),
-                        None => todo!(),
+                        None => (),
                     },
 
                     Value::Object(contents) => {
-- 
2.43.0


From c45a0bf49f27b5c5470c2132cbe668a364d01e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 18/48] fix: report malformed JSON examples as errors

---
 reductionml-core/src/parsers/json_parser.rs | 79 +++++++++++----------
 1 file changed, 43 insertions(+), 36 deletions(-)

diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index e94dc1e..a081b13 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -1,6 +1,6 @@
-use core::{f32, panic};
+use core::f32;
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 
 use crate::object_pool::Pool;
 use crate::parsers::ParsedFeature;
@@ -12,12 +12,23 @@ use super::{TextModeParser, TextModeParserFactory};
 
 use serde_json_borrow::Value;
 
+fn parse_error<T>(message: &str) -> Result<T> {
+    Err(Error::ParserError(message.to_owned()))
+}
+
+fn to_f32(val: &Value) -> Result<f32> {
+    match val.as_f64() {
+        Some(number) => Ok(number as f32),
+        None => parse_error("Expected a number"),
+    }
+}
+
 pub fn to_features(
     val: &Value,
     mut output: SparseFeatures,
     hash_seed: u32,
     num_bits: u8,
-) -> SparseFeatures {
+) -> Result<SparseFeatures> {
     match val {
         Value::Object(obj) => {
             for (ns_name, value) in obj {
@@ -25,44 +36,37 @@ pub fn to_features(
                 let ns_hash = ns.namespace().hash();
                 let mask = FeatureMask::from_num_bits(num_bits);
                 match value {
-                    Value::Str(_) => todo!(),
                     Value::Array(ar) => match ar.first() {
                         Some(Value::Number(_)) => {
                             let it = (0..ar.len() as u32).map(|offset| {
                                 FeatureHash::from(ns_hash.wrapping_add(offset)).mask(mask)
                             });
-                            ns.add_features_with_iter(
-                                it,
-                                ar.iter().map(|x| {
-                                    x.as_f64().expect("Arrays must contain the same type") as f32
-                                }),
-                            );
+                            let values = ar.iter().map(to_f32).collect::<Result<Vec<_>>>()?;
+                            ns.add_features_with_iter(it, values.into_iter());
                         }
                         Some(Value::Str(_)) => {
                             ns.reserve(ar.len());
                             for string in ar {
-                                let feat = ParsedFeature::Simple {
-                                    name: string
-                                        .as_str()
-                                        .expect("Arrays must contain the same type"),
+                                let feat = match string.as_str() {
+                                    Some(name) => ParsedFeature::Simple { name },
+                                    None => {
+                                        return parse_error("Arrays must contain the same type")
+                                    }
                                 };
                                 ns.add_feature(feat.hash(ns_hash).mask(mask), 1.0);
                             }
                         }
-                        Some(_) => panic!("Not a number or string"),
+                        Some(_) => return parse_error("Arrays must contain numbers or strings"),
                         None => (),
                     },
 
                     Value::Object(contents) => {
                         for (key, value) in contents {
                             match value {
-                                Value::Number(value) => {
+                                Value::Number(_) => {
                                     let feat: ParsedFeature<'_> =
                                         ParsedFeature::Simple { name: key };
-                                    ns.add_feature(
-                                        feat.hash(ns_hash).mask(mask),
-                                        value.as_f64().unwrap() as f32,
-                                    );
+                                    ns.add_feature(feat.hash(ns_hash).mask(mask), to_f32(value)?);
                                 }
                                 Value::Str(value) => {
                                     let feat =
@@ -75,17 +79,21 @@ pub fn to_features(
                                         ns.add_feature(feat.hash(ns_hash).mask(mask), 1.0);
                                     }
                                 }
-                                _ => todo!(),
+                                _ => {
+                                    return parse_error(
+                                        "Feature values must be numbers, strings or booleans",
+                                    )
+                                }
                             }
                         }
                     }
-                    _ => todo!(),
+                    _ => return parse_error("Namespaces must be objects or arrays"),
                 }
             }
         }
-        _ => panic!("Not an object"),
+        _ => return parse_error("Features must be an object"),
     }
-    output
+    Ok(output)
 }
 
 #[derive(Default)]
@@ -123,9 +131,9 @@ impl<'a, 'b> JsonParser {
     fn parse_features(&self, json_input: &'a Value) -> Result<Features<'b>> {
         match self.features_type {
             FeaturesType::SparseSimple => match json_input.get("features") {
-                Value::Null => panic!("No features found"),
+                Value::Null => parse_error("No features found"),
                 val => Ok(
-                    to_features(val, self.pool.get_object(), self.hash_seed, self.num_bits).into(),
+                    to_features(val, self.pool.get_object(), self.hash_seed, self.num_bits)?.into(),
                 ),
             },
             FeaturesType::SparseCBAdf => {
@@ -133,20 +141,20 @@ impl<'a, 'b> JsonParser {
                     Value::Null => None,
                     val => {
                         let feats =
-                            to_features(val, self.pool.get_object(), self.hash_seed, self.num_bits);
+                            to_features(val, self.pool.get_object(), self.hash_seed, self.num_bits)?;
                         Some(feats)
                     }
                 };
 
                 let actions = match json_input.get("actions") {
-                    Value::Null => panic!("No actions found"),
+                    Value::Null => return parse_error("No actions found"),
                     Value::Array(val) => val
                         .iter()
                         .map(|x| {
                             to_features(x, self.pool.get_object(), self.hash_seed, self.num_bits)
                         })
-                        .collect(),
-                    _ => panic!("Actions must be an array"),
+                        .collect::<Result<_>>()?,
+                    _ => return parse_error("Actions must be an array"),
                 };
 
                 Ok(CBAdfFeatures { shared, actions }.into())
@@ -160,20 +168,19 @@ impl JsonParser {
         match self.label_type {
             LabelType::Simple => Ok(match json_input.get("label") {
                 Value::Null => None,
-                Value::Number(val) => Some(SimpleLabel::from(val.as_f64().unwrap() as f32)),
+                val @ Value::Number(_) => Some(SimpleLabel::from(to_f32(val)?)),
                 val => {
                     let l: SimpleLabel =
-                        serde_json::from_value(serde_json::Value::from(val.clone())).unwrap();
+                        serde_json::from_value(serde_json::Value::from(val.clone()))?;
                     Some(l)
                 }
             }
             .map(Into::into)),
-            LabelType::Binary => todo!(),
+            LabelType::Binary => parse_error("Binary labels are not supported in JSON examples"),
             LabelType::CB => Ok(match json_input.get("label") {
                 Value::Null => None,
                 val => {
-                    let l: CBLabel =
-                        serde_json::from_value(serde_json::Value::from(val.clone())).unwrap();
+                    let l: CBLabel = serde_json::from_value(serde_json::Value::from(val.clone()))?;
                     Some(l.into())
                 }
             }),
@@ -196,7 +203,7 @@ impl TextModeParser for JsonParser {
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
-        let json: Value = serde_json::from_str(chunk).expect("JSON was not well-formatted");
+        let json: Value = serde_json::from_str(chunk)?;
         let features = self.parse_features(&json)?;
         let label = self.parse_label(&json)?;
         Ok((features, label))
-- 
2.43.0


From d72459174d6992b194c1e76a2f70909e554b5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 19/48] fix: report malformed DSJSON examples as errors

---
 reductionml-core/src/parsers/dsjson_parser.rs | 53 ++++++++++++-------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/reductionml-core/src/parsers/dsjson_parser.rs b/reductionml-core/src/parsers/dsjson_parser.rs
index 90fe366..98859f5 100644
--- a/reductionml-core/src/parsers/dsjson_parser.rs
+++ b/reductionml-core/src/parsers/dsjson_parser.rs
@@ -2,7 +2,7 @@ use core::f32;
 
 use serde_json_borrow::Value;
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 
 use crate::object_pool::Pool;
 use crate::parsers::ParsedFeature;
@@ -59,19 +59,22 @@ impl DsJsonParser {
         object_key: &str,
         json_value: &Value,
         namespace_stack: &mut Vec<Namespace>,
-    ) {
+    ) -> Result<()> {
         // All underscore prefixed keys are ignored.
         if object_key.starts_with('_') {
-            return;
+            return Ok(());
         }
 
+        let scalar_outside_namespace =
+            || Error::ParserError("Expected an object of features".to_owned());
+
         // skip everything with _
         match json_value {
-            Value::Null => panic!("Null is not supported"),
+            Value::Null => return Err(Error::ParserError("Null is not supported".to_owned())),
             Value::Bool(true) => {
                 let current_ns = *namespace_stack
                     .last()
-                    .expect("namespace stack should not be empty here");
+                    .ok_or_else(scalar_outside_namespace)?;
                 let current_ns_hash = current_ns.hash();
                 let current_feats = features.get_or_create_namespace(current_ns);
                 current_feats.add_feature(
@@ -85,7 +88,7 @@ impl DsJsonParser {
             Value::Number(value) => {
                 let current_ns = *namespace_stack
                     .last()
-                    .expect("namespace stack should not be empty here");
+                    .ok_or_else(scalar_outside_namespace)?;
                 let current_ns_hash = current_ns.hash();
                 let current_feats = features.get_or_create_namespace(current_ns);
                 current_feats.add_feature(
@@ -98,7 +101,7 @@ impl DsJsonParser {
             Value::Str(value) => {
                 let current_ns = namespace_stack
                     .last()
-                    .expect("namespace stack should not be empty here");
+                    .ok_or_else(scalar_outside_namespace)?;
                 let current_ns_hash = current_ns.hash();
                 let current_feats = features.get_or_create_namespace(*current_ns);
                 current_feats.add_feature(
@@ -133,14 +136,16 @@ impl DsJsonParser {
                             );
                         }
                         Value::Object(_) => {
-                            self.handle_features(features, object_key, v, namespace_stack);
+                            self.handle_features(features, object_key, v, namespace_stack)?;
                         }
                         // Just ignore null and do nothing
                         Value::Null => (),
-                        _ => panic!(
-                            "Array of non-number or object is not supported key:{} value:{:?}",
-                            object_key, v
-                        ),
+                        _ => {
+                            return Err(Error::ParserError(format!(
+                                "Array of non-number or object is not supported key:{} value:{:?}",
+                                object_key, v
+                            )))
+                        }
                     }
                 }
                 namespace_stack.pop().unwrap();
@@ -148,11 +153,12 @@ impl DsJsonParser {
             Value::Object(value) => {
                 namespace_stack.push(Namespace::from_name(object_key, self.hash_seed));
                 for (key, v) in value {
-                    self.handle_features(features, key, v, namespace_stack);
+                    self.handle_features(features, key, v, namespace_stack)?;
                 }
                 namespace_stack.pop().unwrap();
             }
         }
+        Ok(())
     }
 }
 
@@ -171,18 +177,21 @@ impl TextModeParser for DsJsonParser {
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
-        let json: Value = serde_json::from_str(chunk).expect("JSON was not well-formatted");
+        let json: Value = serde_json::from_str(chunk)?;
+        let items = json.get("c").get("_multi").iter_array().ok_or_else(|| {
+            Error::ParserError("Expected an object \"c\" with an array \"_multi\"".to_owned())
+        })?;
 
         let mut namespace_stack = Vec::new();
 
         let mut shared_ex = self.pool.get_object();
-        self.handle_features(&mut shared_ex, " ", json.get("c"), &mut namespace_stack);
+        self.handle_features(&mut shared_ex, " ", json.get("c"), &mut namespace_stack)?;
         assert!(namespace_stack.is_empty());
 
         let mut actions = Vec::new();
-        for item in json.get("c").get("_multi").iter_array().unwrap() {
+        for item in items {
             let mut action = self.pool.get_object();
-            self.handle_features(&mut action, " ", item, &mut namespace_stack);
+            self.handle_features(&mut action, " ", item, &mut namespace_stack)?;
             actions.push(action);
             assert!(namespace_stack.is_empty());
         }
@@ -193,12 +202,18 @@ impl TextModeParser for DsJsonParser {
             json.get("_labelIndex"),
         ) {
             (Value::Number(cost), Value::Number(prob), Value::Number(action)) => Some(CBLabel {
-                action: action.as_u64().unwrap() as usize,
+                action: action.as_u64().ok_or_else(|| {
+                    Error::ParserError("Expected the label index to be an action".to_owned())
+                })? as usize,
                 cost: cost.as_f64().unwrap() as f32,
                 probability: prob.as_f64().unwrap() as f32,
             }),
             (Value::Null, Value::Null, Value::Null) => None,
-            _ => panic!("Invalid label, all 3 or none must be present"),
+            _ => {
+                return Err(Error::ParserError(
+                    "Invalid label, all 3 or none must be present".to_owned(),
+                ))
+            }
         };
 
         Ok((
-- 
2.43.0


From 81583482a8bc05c1b35e0a5e6510e829a201d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 20/48] fix: accept escaped object keys in JSON and DSJSON
 examples

---
 reductionml-core/src/parsers/dsjson_parser.rs | 11 ++++++++++-
 reductionml-core/src/parsers/json_parser.rs   | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/parsers/dsjson_parser.rs b/reductionml-core/src/parsers/dsjson_parser.rs
index 98859f5..2a67059 100644
--- a/reductionml-core/src/parsers/dsjson_parser.rs
+++ b/reductionml-core/src/parsers/dsjson_parser.rs
@@ -1,5 +1,6 @@
 use core::f32;
 
+use serde::Deserialize;
 use serde_json_borrow::Value;
 
 use crate::error::{Error, Result};
@@ -177,7 +178,15 @@ impl TextModeParser for DsJsonParser {
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
-        let json: Value = serde_json::from_str(chunk)?;
+        let owned: serde_json::Value;
+        let json = match serde_json::from_str(chunk) {
+            Ok(json) => json,
+            Err(_) => {
+                // Object keys which contain escapes cannot be borrowed from the chunk.
+                owned = serde_json::from_str(chunk)?;
+                Value::deserialize(&owned)?
+            }
+        };
         let items = json.get("c").get("_multi").iter_array().ok_or_else(|| {
             Error::ParserError("Expected an object \"c\" with an array \"_multi\"".to_owned())
         })?;
diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index a081b13..eab096e 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -10,6 +10,7 @@ use crate::{CBAdfFeatures, CBLabel, FeatureHash, FeatureMask, FeaturesType, Simp
 
 use super::{TextModeParser, TextModeParserFactory};
 
+use serde::Deserialize;
 use serde_json_borrow::Value;
 
 fn parse_error<T>(message: &str) -> Result<T> {
@@ -203,7 +204,15 @@ impl TextModeParser for JsonParser {
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
-        let json: Value = serde_json::from_str(chunk)?;
+        let owned: serde_json::Value;
+        let json = match serde_json::from_str(chunk) {
+            Ok(json) => json,
+            Err(_) => {
+                // Object keys which contain escapes cannot be borrowed from the chunk.
+                owned = serde_json::from_str(chunk)?;
+                Value::deserialize(&owned)?
+            }
+        };
         let features = self.parse_features(&json)?;
         let label = self.parse_label(&json)?;
         Ok((features, label))
-- 
2.43.0


From f33ff5cb98b3fbc9c14269f755b36b60f765b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 21/48] fix: stop training with an error when an example cannot
 be read, parsed or learnt

---
 reductionml-cli/src/train.rs | 53 ++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 8107083..8ee50ba 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -5,6 +5,7 @@ use std::{
     cell::UnsafeCell,
     fs::File,
     io::{self, stdout, Write},
+    panic::{catch_unwind, AssertUnwindSafe},
     str::FromStr,
     sync::{atomic::Ordering, Arc},
 };
@@ -307,8 +308,8 @@ impl Command for TrainCommand {
         match num_parse_threads {
             0 => {
                 let mut buffer = String::new();
-                while let Some(chunk) = parser.get_next_chunk(&mut input_file, buffer).unwrap() {
-                    let (features, label) = parser.parse_chunk(&chunk).unwrap();
+                while let Some(chunk) = parser.get_next_chunk(&mut input_file, buffer)? {
+                    let (features, label) = parser.parse_chunk(&chunk)?;
                     buffer = chunk;
                     process_example(
                         label,
@@ -319,7 +320,7 @@ impl Command for TrainCommand {
                         &mut manager,
                         quiet,
                         &pool,
-                    );
+                    )?;
                 }
             }
             n => {
@@ -327,22 +328,23 @@ impl Command for TrainCommand {
                 let (parse_sender, parse_receiver) = flume::bounded(args.queue_size);
                 let (learn_sender, learn_receiver) = flume::bounded(args.queue_size);
                 std::thread::scope(|s| -> Result<()> {
+                    // Owned by this scope so that the other threads stop when it is left early.
+                    let learn_receiver = learn_receiver;
+
                     // Input thread
-                    s.spawn(|| {
-                        loop {
-                            if let Some(chunk) = parser
-                                .get_next_chunk(&mut input_file, string_pool.get_object())
-                                .unwrap()
+                    let input_thread = s.spawn(|| -> Result<()> {
+                        let (parse_sender, learn_sender) = (parse_sender, learn_sender);
+                        while let Some(chunk) =
+                            parser.get_next_chunk(&mut input_file, string_pool.get_object())?
+                        {
+                            let res: Arc<ParseResult> = Arc::new(ParseResult::new(chunk));
+                            if parse_sender.send(res.clone()).is_err()
+                                || learn_sender.send(res).is_err()
                             {
-                                let res = Arc::new(ParseResult::new(chunk));
-                                parse_sender.send(res.clone()).unwrap();
-                                learn_sender.send(res).unwrap();
-                            } else {
                                 break;
                             }
                         }
-                        std::mem::drop(parse_sender);
-                        std::mem::drop(learn_sender);
+                        Ok(())
                     });
 
                     for _ in 0..n {
@@ -350,9 +352,15 @@ impl Command for TrainCommand {
                             match parse_receiver.recv() {
                                 Ok(res) => {
                                     let input = res.get_input();
-                                    let parsed = parser.parse_chunk(&input);
+                                    // The result must always be set as the learner waits for it.
+                                    let parsed = catch_unwind(AssertUnwindSafe(|| {
+                                        parser.parse_chunk(&input)
+                                    }));
                                     string_pool.return_object(input);
-                                    res.set_result(parsed.map_err(|e| anyhow::anyhow!(e)));
+                                    res.set_result(match parsed {
+                                        Ok(parsed) => parsed.map_err(|e| anyhow::anyhow!(e)),
+                                        Err(_) => Err(anyhow::anyhow!("Failed to parse example")),
+                                    });
                                 }
                                 Err(_) => break,
                             }
@@ -363,7 +371,7 @@ impl Command for TrainCommand {
                         let res = learn_receiver.recv();
                         match res {
                             Ok(result) => {
-                                let (features, label) = result.await_result().unwrap();
+                                let (features, label) = result.await_result()?;
                                 process_example(
                                     label,
                                     &mut workspace,
@@ -373,12 +381,14 @@ impl Command for TrainCommand {
                                     &mut manager,
                                     quiet,
                                     &pool,
-                                );
+                                )?;
                             }
                             Err(_) => break,
                         }
                     }
-                    Ok(())
+                    input_thread
+                        .join()
+                        .map_err(|_| anyhow::anyhow!("Failed to read data file"))?
                 })?;
             }
         }
@@ -409,8 +419,8 @@ fn process_example(
     pool: &std::sync::Arc<
         object_pool::Pool<reductionml_core::sparse_namespaced_features::SparseFeatures>,
     >,
-) {
-    let label = label.unwrap();
+) -> Result<()> {
+    let label = label.context("Training examples must have a label")?;
     if !quiet || predictions_file.is_some() {
         let prediction = workspace.predict_then_learn(&mut features, &label);
         if let Some(file) = predictions_file.as_mut() {
@@ -432,4 +442,5 @@ fn process_example(
 
     // Put feature objects back into the pool for reuse.
     features.clear_and_return_object(pool.as_ref());
+    Ok(())
 }
-- 
2.43.0


From 7d641f03adc551d35f2d8ce725cd168ac2ee8c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 22/48] fix: report an unknown metric as an error

---
 reductionml-cli/src/train.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 8ee50ba..40284e5 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -289,11 +289,12 @@ impl Command for TrainCommand {
         };
 
         let mut metrics = vec![reductionml_core::metrics::get_metric("example_number").unwrap()];
-        if args.metrics.is_some() {
-            args.metrics.as_ref().unwrap().iter().for_each(|name| {
-                metrics.push(reductionml_core::metrics::get_metric(name).unwrap())
-            });
-        };
+        for name in args.metrics.iter().flatten() {
+            metrics.push(
+                reductionml_core::metrics::get_metric(name)
+                    .with_context(|| format!("Unknown metric: {}", name))?,
+            );
+        }
 
         let mut manager = TrainResultManager::new(
             args.progress,
-- 
2.43.0


From cadc4eb9919dcae5d6a0d54e20552ca040f48cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 23/48] fix: report predictions and models that cannot be
 written as an error

---
 reductionml-cli/src/train.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 40284e5..bcf1f3c 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -394,14 +394,19 @@ impl Command for TrainCommand {
             }
         }
 
+        if let Some(file) = predictions_file.as_mut() {
+            file.flush()?;
+        }
+
         if !quiet {
             manager.add_results(metrics.iter().map(|x| x.get_value()).collect());
             manager.render_table_to_stdout();
         }
 
         if let Some(file) = &args.output_model {
-            let data = workspace.serialize_model().unwrap();
-            std::fs::write(file, data).unwrap();
+            let data = workspace.serialize_model()?;
+            std::fs::write(file, data)
+                .with_context(|| format!("Failed to write output model: {}", file))?;
         }
 
         Ok(())
@@ -425,7 +430,7 @@ fn process_example(
     if !quiet || predictions_file.is_some() {
         let prediction = workspace.predict_then_learn(&mut features, &label);
         if let Some(file) = predictions_file.as_mut() {
-            writeln!(file, "{}", serde_json::to_string(&prediction).unwrap()).unwrap();
+            writeln!(file, "{}", serde_json::to_string(&prediction)?)?;
         }
 
         for metric in metrics.iter_mut() {
-- 
2.43.0


From 8a01ccdf091268b3769aab4de2c4fefa92e866f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:19 +0000
Subject: [PATCH 24/48] fix: train on a data file without examples

---
 reductionml-cli/src/train.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index bcf1f3c..920f626 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -398,7 +398,7 @@ impl Command for TrainCommand {
             file.flush()?;
         }
 
-        if !quiet {
+        if !quiet && manager.iteration > 0 {
             manager.add_results(metrics.iter().map(|x| x.get_value()).collect());
             manager.render_table_to_stdout();
         }
-- 
2.43.0


From 35798e4c4ca40ae57481270d6e444f1b345189b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 25/48] fix: elementwise interaction of a missing namespace or
 of a namespace with itself

---
 .../src/reductions/elementwise_interaction.rs | 44 +++++++++++++------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 7c429bb..4e2fc55 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -139,8 +139,13 @@ fn elementwise_multiply(
     let composite_base = FeatureHash::from(u32::from(composite_ns.hash())).mask(mask);
 
     let mut dest_iter = SparseFeaturesNamespace::new(composite_ns);
-    let mut ns_one_it = features.get_namespace(one).unwrap().iter();
-    let mut ns_two_it = features.get_namespace(two).unwrap().iter();
+    let (ns_one, ns_two) = match (features.get_namespace(one), features.get_namespace(two)) {
+        (Some(ns_one), Some(ns_two)) => (ns_one, ns_two),
+        // A namespace that is not present has no elements.
+        _ => return (composite_ns, dest_iter),
+    };
+    let mut ns_one_it = ns_one.iter();
+    let mut ns_two_it = ns_two.iter();
     let mut cur_1 = ns_one_it.next();
     let mut cur_2 = ns_two_it.next();
     loop {
@@ -176,6 +181,17 @@ fn elementwise_multiply(
     (composite_ns, dest_iter)
 }
 
+// The namespace may not have been present, or already be restored if it was interacted with itself.
+fn restore_namespace(
+    features: &mut SparseFeatures,
+    namespace: Namespace,
+    removed: Option<SparseFeaturesNamespace>,
+) {
+    if let Some(removed) = removed {
+        features.set_namespace(namespace, removed);
+    }
+}
+
 #[typetag::serde]
 impl ReductionImpl for ElementwiseInteraction {
     fn predict(
@@ -198,15 +214,15 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self
                 .regressor
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            restore_namespace(sparse_feats, self.pair.0, ns1);
+            restore_namespace(sparse_feats, self.pair.1, ns2);
             pred
         }
     }
@@ -235,8 +251,8 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self.regressor.predict_then_learn(
                 &mut sparse_feats.into(),
                 label,
@@ -245,8 +261,8 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            restore_namespace(sparse_feats, self.pair.0, ns1);
+            restore_namespace(sparse_feats, self.pair.1, ns2);
             pred
         }
     }
@@ -270,14 +286,14 @@ impl ReductionImpl for ElementwiseInteraction {
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            restore_namespace(sparse_feats, self.pair.0, ns1);
+            restore_namespace(sparse_feats, self.pair.1, ns2);
         }
     }
 
-- 
2.43.0


From 029ab392aba4ab9c962cbf04854b9c91125d94a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 26/48] fix: reject unknown keys next to the config of a
 reduction as the schema does

---
 reductionml-core/src/reduction_factory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reductionml-core/src/reduction_factory.rs b/reductionml-core/src/reduction_factory.rs
index c60046d..1dad0d5 100644
--- a/reductionml-core/src/reduction_factory.rs
+++ b/reductionml-core/src/reduction_factory.rs
@@ -18,6 +18,7 @@ use crate::{
 // Use gen_json_reduction_config_schema instead with schema_with
 #[derive(Clone, Deserialize, Serialize, Debug)]
 #[serde(rename_all = "camelCase")]
+#[serde(deny_unknown_fields)]
 pub struct JsonReductionConfig {
     typename: PascalCaseString,
     // TODO: ensure json schema reflects that this is option based on the below deserialize impl
-- 
2.43.0


From 2bd87bee24ae7dec9cc4dfd466855a6d9a6d5a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 27/48] fix: reject exploration rates which are not
 probabilities

---
 reductionml-core/src/explore.rs                       | 11 +++++++++++
 .../src/reductions/cb_explore_adf_greedy.rs           |  2 ++
 .../src/reductions/cb_explore_adf_softmax.rs          |  3 ++-
 .../src/reductions/cb_explore_adf_squarecb.rs         |  3 ++-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/explore.rs b/reductionml-core/src/explore.rs
index 256e955..dc22d5f 100644
--- a/reductionml-core/src/explore.rs
+++ b/reductionml-core/src/explore.rs
@@ -1,5 +1,16 @@
 use crate::error::Result;
 
+pub(crate) fn check_epsilon(epsilon: f32) -> Result<()> {
+    if (0.0..=1.0).contains(&epsilon) {
+        Ok(())
+    } else {
+        Err(crate::error::Error::InvalidArgument(format!(
+            "epsilon must be in [0, 1], but is {}",
+            epsilon
+        )))
+    }
+}
+
 pub fn enforce_min_prob(
     uniform_epsilon: f32,
     consider_zero_valued_elements: bool,
diff --git a/reductionml-core/src/reductions/cb_explore_adf_greedy.rs b/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
index 9b079fd..964b17e 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
@@ -1,4 +1,5 @@
 use crate::error::Result;
+use crate::explore::check_epsilon;
 use crate::global_config::GlobalConfig;
 
 use crate::reduction::{
@@ -69,6 +70,7 @@ impl ReductionFactory for CBExploreAdfGreedyReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfGreedyConfig>()
             .unwrap();
+        check_epsilon(config.epsilon)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         let cb_adf: ReductionWrapper =
             create_reduction(cb_adf_config.as_ref(), global_config, num_models_above)?;
diff --git a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
index 84d5365..bc7f34d 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
@@ -8,7 +8,7 @@ use crate::reduction_factory::{
     create_reduction, JsonReductionConfig, PascalCaseString, ReductionConfig, ReductionFactory,
 };
 
-use crate::explore::enforce_min_prob;
+use crate::explore::{check_epsilon, enforce_min_prob};
 use crate::{impl_default_factory_functions, types::*, ModelIndex};
 use schemars::schema::RootSchema;
 use schemars::{schema_for, JsonSchema};
@@ -78,6 +78,7 @@ impl ReductionFactory for CBExploreAdfSoftmaxReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfSoftmaxConfig>()
             .unwrap();
+        check_epsilon(config.uniform_epsilon)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         let cb_adf: ReductionWrapper =
             create_reduction(cb_adf_config.as_ref(), global_config, num_models_above)?;
diff --git a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
index c86a086..44a50a2 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
@@ -16,7 +16,7 @@ use serde::{Deserialize, Serialize};
 use serde_default::DefaultFromSerde;
 use serde_json::json;
 
-use crate::explore::enforce_min_prob;
+use crate::explore::{check_epsilon, enforce_min_prob};
 
 use super::{CBAdfConfig, CBType};
 
@@ -87,6 +87,7 @@ impl ReductionFactory for CBExploreAdfSquareCBReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfSquareCBConfig>()
             .unwrap();
+        check_epsilon(config.uniform_epsilon)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         // Try checking for MTR
         if let Some(cfg) = cb_adf_config.as_any().downcast_ref::<CBAdfConfig>() {
-- 
2.43.0


From 90c76c96a8aecf198d0b0af4b0945a0ddeb5ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 28/48] fix: give Debug a default configuration that can be
 created

---
 reductionml-core/src/reductions/debug.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/reductions/debug.rs b/reductionml-core/src/reductions/debug.rs
index 32fb02a..4226618 100644
--- a/reductionml-core/src/reductions/debug.rs
+++ b/reductionml-core/src/reductions/debug.rs
@@ -8,6 +8,7 @@ use crate::reduction_factory::{
     create_reduction, JsonReductionConfig, PascalCaseString, ReductionConfig, ReductionFactory,
 };
 
+use crate::reductions::CoinRegressorConfig;
 use crate::{impl_default_factory_functions, types::*, ModelIndex};
 use schemars::schema::RootSchema;
 use schemars::{schema_for, JsonSchema};
@@ -47,7 +48,10 @@ fn default_indent() -> usize {
 }
 
 fn default_next() -> JsonReductionConfig {
-    JsonReductionConfig::new("Unknown".try_into().unwrap(), json!({}))
+    JsonReductionConfig::new(
+        "Coin".try_into().unwrap(),
+        json!(CoinRegressorConfig::default()),
+    )
 }
 
 impl ReductionConfig for DebugConfig {
-- 
2.43.0


From 019f3bd9433b3942e8ff22fe90eb0ef665f9e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 29/48] fix: hash names of features in the default namespace as
 the parsers do

---
 reductionml-core/src/inverse_hash_table.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/inverse_hash_table.rs b/reductionml-core/src/inverse_hash_table.rs
index 6672d3a..57559c3 100644
--- a/reductionml-core/src/inverse_hash_table.rs
+++ b/reductionml-core/src/inverse_hash_table.rs
@@ -3,6 +3,7 @@ use serde::{Deserialize, Serialize};
 use crate::{
     hash::{hash_bytes, FNV_PRIME},
     parsers::ParsedFeature,
+    sparse_namespaced_features::Namespace,
     FeatureHash, FeatureIndex,
 };
 
@@ -34,7 +35,7 @@ impl Feature {
     pub fn hash(&self, hash_seed: u32) -> FeatureHash {
         match &self {
             Feature::Simple { namespace, name } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 hash_bytes(name.as_bytes(), namespace_hash).into()
             }
             Feature::SimpleWithStringValue {
@@ -42,12 +43,12 @@ impl Feature {
                 name,
                 value,
             } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 let name_key_hash = hash_bytes(name.as_bytes(), namespace_hash);
                 hash_bytes(value.as_bytes(), name_key_hash).into()
             }
             Feature::Anonymous { namespace, offset } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 namespace_hash.wrapping_add(*offset).into()
             }
             // In a very cool property hashing of the interacted feature does not need to take into account bit masking until the very end
-- 
2.43.0


From a6473e86f334c0bb7fb6d9c43f177abb8d7e7289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:17 +0000
Subject: [PATCH 30/48] fix: end the name of a namespace at any whitespace when
 extracting feature names

---
 reductionml-core/src/parsers/vw_text_parser.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index c27e1a3..497847c 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -298,17 +298,20 @@ fn parse_namespace_info_token(namespace_segment: &str) -> Result<(&str, f32)> {
 
 // "Consumes" some amount of input and returns the namespace info and the remaining input
 fn parse_namespace_info(input: &str) -> Result<(&str, (ParsedNamespaceInfo, f32))> {
-    // Extract up until the first space
+    // Extract up until the first whitespace
     if input.trim().is_empty() {
         Ok(("", (ParsedNamespaceInfo::Default, 1.0)))
     } else if input.starts_with(' ') {
         Ok((&input[1..], (ParsedNamespaceInfo::Default, 1.0)))
     } else {
-        let input_until_first_space = input.find(' ').unwrap_or(input.len());
-        let namespace_info_token = &input[..input_until_first_space];
+        let input = input.trim_start_matches(|c: char| c.is_ascii_whitespace());
+        let namespace_info_end = input
+            .find(|c: char| c.is_ascii_whitespace())
+            .unwrap_or(input.len());
+        let namespace_info_token = &input[..namespace_info_end];
         let (ns_name, ns_value) = parse_namespace_info_token(namespace_info_token)?;
         Ok((
-            &input[input_until_first_space..],
+            &input[namespace_info_end..],
             (ParsedNamespaceInfo::Named(ns_name), ns_value),
         ))
     }
-- 
2.43.0


From 78271a74a82029e5e5ba0e335a27b95136a250d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:43 +0000
Subject: [PATCH 31/48] fix: require the typename of a reduction in the
 configuration schema as the loader does

---
 reductionml-core/src/config_schema.rs |  5 ++++
 schemas/config/latest/schema.json     | 37 +++++++++++++++++++++++++--
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/config_schema.rs b/reductionml-core/src/config_schema.rs
index a235f5f..9187b7d 100644
--- a/reductionml-core/src/config_schema.rs
+++ b/reductionml-core/src/config_schema.rs
@@ -62,6 +62,11 @@ impl ConfigSchema {
             "config".to_owned(),
             Schema::Object(reductions_inner_schema.schema),
         );
+        // Only the config can be left out
+        reduction_config_schema
+            .object()
+            .required
+            .insert("typename".to_owned());
         // Set additionalProperties to false
         reduction_config_schema.object().additional_properties =
             Some(Box::new(Schema::Bool(false)));
diff --git a/schemas/config/latest/schema.json b/schemas/config/latest/schema.json
index 4bcaf15..7987214 100644
--- a/schemas/config/latest/schema.json
+++ b/schemas/config/latest/schema.json
@@ -20,6 +20,9 @@
   "additionalProperties": false,
   "definitions": {
     "Binary": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "BinaryReductionConfig",
@@ -62,6 +65,9 @@
       ]
     },
     "CbAdf": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CBAdfConfig",
@@ -105,6 +111,9 @@
       "additionalProperties": false
     },
     "CbExploreAdfGreedy": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CBExploreAdfGreedyConfig",
@@ -151,6 +160,9 @@
       "additionalProperties": false
     },
     "CbExploreAdfSoftmax": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CBExploreAdfSoftmaxConfig",
@@ -202,6 +214,9 @@
       "additionalProperties": false
     },
     "CbExploreAdfSquareCb": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CBExploreAdfSquareCBConfig",
@@ -258,6 +273,9 @@
       "additionalProperties": false
     },
     "Coin": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CoinRegressorConfig",
@@ -311,6 +329,9 @@
       "additionalProperties": false
     },
     "Debug": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "DebugConfig",
@@ -336,8 +357,17 @@
             },
             "next": {
               "default": {
-                "config": {},
-                "typename": "Unknown"
+                "config": {
+                  "alpha": 4.0,
+                  "beta": 1.0,
+                  "l1Lambda": 0.0,
+                  "l2Lambda": 0.0,
+                  "linkFunction": "Identity",
+                  "lossFunction": {
+                    "Squared": {}
+                  }
+                },
+                "typename": "Coin"
               },
               "allOf": [
                 {
@@ -359,6 +389,9 @@
       "additionalProperties": false
     },
     "ElementwiseInteraction": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "ElementwiseInteractionConfig",
-- 
2.43.0


From 18822aecb5436576ae8b1caf6520f5e7b76dcbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 32/48] fix: keep the products of an enclosing elementwise
 interaction

---
 .../src/reductions/elementwise_interaction.rs | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 4e2fc55..c17b3c0 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -181,6 +181,23 @@ fn elementwise_multiply(
     (composite_ns, dest_iter)
 }
 
+// An enclosing elementwise interaction may have put its products into the same namespace. What it
+// held is returned, to be restored afterwards.
+fn add_products(
+    features: &mut SparseFeatures,
+    composite_ns: Namespace,
+    mut products: SparseFeaturesNamespace,
+) -> Option<SparseFeaturesNamespace> {
+    let outer = features.remove_namespace(composite_ns);
+    if let Some(outer) = &outer {
+        for (index, value) in outer.iter() {
+            products.add_feature(index, value);
+        }
+    }
+    features.set_namespace(composite_ns, products);
+    outer
+}
+
 // The namespace may not have been present, or already be restored if it was interacted with itself.
 fn restore_namespace(
     features: &mut SparseFeatures,
@@ -205,13 +222,14 @@ impl ReductionImpl for ElementwiseInteraction {
         let (composite_ns, dest_iter) =
             elementwise_multiply(self.num_bits, sparse_feats, &self.pair.0, &self.pair.1);
 
-        sparse_feats.set_namespace(composite_ns, dest_iter);
+        let outer = add_products(sparse_feats, composite_ns, dest_iter);
         if self.keep_original_features {
             let pred = self
                 .regressor
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, outer);
             pred
         } else {
             let ns1 = sparse_feats.remove_namespace(self.pair.0);
@@ -221,6 +239,7 @@ impl ReductionImpl for ElementwiseInteraction {
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, outer);
             restore_namespace(sparse_feats, self.pair.0, ns1);
             restore_namespace(sparse_feats, self.pair.1, ns2);
             pred
@@ -239,7 +258,7 @@ impl ReductionImpl for ElementwiseInteraction {
         let (composite_ns, dest_iter) =
             elementwise_multiply(self.num_bits, sparse_feats, &self.pair.0, &self.pair.1);
 
-        sparse_feats.set_namespace(composite_ns, dest_iter);
+        let outer = add_products(sparse_feats, composite_ns, dest_iter);
         if self.keep_original_features {
             let pred = self.regressor.predict_then_learn(
                 &mut sparse_feats.into(),
@@ -249,6 +268,7 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, outer);
             pred
         } else {
             let ns1 = sparse_feats.remove_namespace(self.pair.0);
@@ -261,6 +281,7 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, outer);
             restore_namespace(sparse_feats, self.pair.0, ns1);
             restore_namespace(sparse_feats, self.pair.1, ns2);
             pred
@@ -279,12 +300,13 @@ impl ReductionImpl for ElementwiseInteraction {
         let (composite_ns, dest_iter) =
             elementwise_multiply(self.num_bits, sparse_feats, &self.pair.0, &self.pair.1);
 
-        sparse_feats.set_namespace(composite_ns, dest_iter);
+        let outer = add_products(sparse_feats, composite_ns, dest_iter);
         if self.keep_original_features {
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, outer);
         } else {
             let ns1 = sparse_feats.remove_namespace(self.pair.0);
             let ns2 = sparse_feats.remove_namespace(self.pair.1);
@@ -292,6 +314,7 @@ impl ReductionImpl for ElementwiseInteraction {
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, outer);
             restore_namespace(sparse_feats, self.pair.0, ns1);
             restore_namespace(sparse_feats, self.pair.1, ns2);
         }
-- 
2.43.0


From b5e1123a4577adfda3a1822845b9455b8eaf37ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 33/48] fix: refuse weights of a JSON model that do not fit
 their sizes

---
 reductionml-core/src/dense_weights.rs | 32 +++++++++++++++++++++++++++
 reductionml-core/src/workspace.rs     |  1 +
 2 files changed, 33 insertions(+)

diff --git a/reductionml-core/src/dense_weights.rs b/reductionml-core/src/dense_weights.rs
index af7ad3c..3fbdc29 100644
--- a/reductionml-core/src/dense_weights.rs
+++ b/reductionml-core/src/dense_weights.rs
@@ -106,6 +106,38 @@ impl DenseWeightsWithNDArray {
         }
     }
 
+    /// Whether all weights have their place in the space described by the sizes.
+    pub(crate) fn check(&self) -> Result<()> {
+        let invalid = |what: &str| Err(Error::InvalidArgument(format!("Invalid weights: {what}")));
+        if *self.feature_index_size == 0
+            || *self.model_index_size == 0
+            || *self.feature_state_size == 0
+        {
+            return invalid("sizes must not be zero");
+        }
+        let shift = |size: u64| num_bits_to_represent(size - 1);
+        if self.model_index_size_shift as u64 != shift(*self.model_index_size as u64)
+            || self.feature_state_size_shift as u64 != shift(*self.feature_state_size as u64)
+        {
+            return invalid("shifts do not match sizes");
+        }
+        for (feature_index, feature) in &self.weights {
+            if *feature_index >= self.feature_index_size {
+                return invalid("feature index is out of range");
+            }
+            if feature.len() > *self.model_index_size as usize {
+                return invalid("model index is out of range");
+            }
+            if feature
+                .iter()
+                .any(|state| state.len() != *self.feature_state_size as usize)
+            {
+                return invalid("number of weights of a feature does not match");
+            }
+        }
+        Ok(())
+    }
+
     pub fn to_dense_weights(&self) -> DenseWeights {
         let feature_index_size_shift =
             num_bits_to_represent(*self.feature_index_size as u64 - 1) as usize;
diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index 4a42f92..6856d1f 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -77,6 +77,7 @@ fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) -> serde_json::
                 && map.contains_key("feature_state_size_shift")
             {
                 let wts: DenseWeightsWithNDArray = serde_json::from_value(value.clone())?;
+                wts.check().map_err(serde::de::Error::custom)?;
                 *value = serde_json::to_value(wts.to_dense_weights())?;
                 return Ok(());
             }
-- 
2.43.0


From 7d8a7feb6de3f1277bd5e8b46e68058b64594093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 34/48] fix: raise an exception when a workspace cannot be
 created from Python

---
 reductionml-python/src/parsers.rs   |  2 +-
 reductionml-python/src/workspace.rs | 28 +++++++++++++++-------------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/reductionml-python/src/parsers.rs b/reductionml-python/src/parsers.rs
index a5ca223..b41791a 100644
--- a/reductionml-python/src/parsers.rs
+++ b/reductionml-python/src/parsers.rs
@@ -146,7 +146,7 @@ impl WrappedParserTextAndJson {
             JsonInputKinds::StringInput(x) => x.into(),
             JsonInputKinds::DictInput(x) => {
                 // TODO: avoid the trip to string here.
-                let input: serde_json::Value = depythonize(x).unwrap();
+                let input: serde_json::Value = depythonize(x)?;
                 serde_json::to_string(&input).unwrap().into()
             }
         };
diff --git a/reductionml-python/src/workspace.rs b/reductionml-python/src/workspace.rs
index 7889f9d..616774d 100644
--- a/reductionml-python/src/workspace.rs
+++ b/reductionml-python/src/workspace.rs
@@ -14,7 +14,7 @@ use crate::{
     labels::{WrappedLabel, WrappedLabelType},
     parsers::{create_parser, FormatType, WrappedParser},
     predictions::{WrappedPrediction, WrappedPredictionType},
-    WrappedFeaturesType,
+    WrappedError, WrappedFeaturesType,
 };
 
 #[pyclass]
@@ -125,24 +125,26 @@ pub(crate) struct WrappedWorkspace(pub(crate) reductionml_core::workspace::Works
 #[pymethods]
 impl WrappedWorkspace {
     #[staticmethod]
-    pub(crate) fn create_from_config(config: &PyDict) -> Self {
-        let config: Configuration = depythonize(config).unwrap();
-        let workspace = reductionml_core::workspace::Workspace::new(config).unwrap();
-        Self(workspace)
+    pub(crate) fn create_from_config(config: &PyDict) -> PyResult<Self> {
+        let config: Configuration = depythonize(config)?;
+        let workspace =
+            reductionml_core::workspace::Workspace::new(config).map_err(WrappedError::from)?;
+        Ok(Self(workspace))
     }
 
     #[staticmethod]
-    pub(crate) fn create_from_model(data: Vec<u8>) -> Self {
-        let workspace = reductionml_core::workspace::Workspace::create_from_model(&data).unwrap();
-        Self(workspace)
+    pub(crate) fn create_from_model(data: Vec<u8>) -> PyResult<Self> {
+        let workspace = reductionml_core::workspace::Workspace::create_from_model(&data)
+            .map_err(WrappedError::from)?;
+        Ok(Self(workspace))
     }
 
     #[staticmethod]
-    pub(crate) fn create_from_json_model(model_json: &PyDict) -> Self {
-        let data = depythonize(model_json).unwrap();
-        let workspace =
-            reductionml_core::workspace::Workspace::deserialize_from_json(&data).unwrap();
-        Self(workspace)
+    pub(crate) fn create_from_json_model(model_json: &PyDict) -> PyResult<Self> {
+        let data = depythonize(model_json)?;
+        let workspace = reductionml_core::workspace::Workspace::deserialize_from_json(&data)
+            .map_err(WrappedError::from)?;
+        Ok(Self(workspace))
     }
 
     pub(crate) fn serialize(&self) -> PyResult<Vec<u8>> {
-- 
2.43.0


From 93116bda87af1c3d86e8de1b4e401b4e8e03b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:24 +0000
Subject: [PATCH 35/48] fix: print no progress table when training quietly

---
 reductionml-cli/src/train.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 920f626..4b72ceb 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -438,7 +438,7 @@ fn process_example(
         }
 
         let should_output = manager.inc_iteration();
-        if should_output {
+        if should_output && !quiet {
             manager.add_results(metrics.iter().map(|x| x.get_value()).collect());
             manager.render_table_to_stdout();
         }
-- 
2.43.0


From 5ca20a6e0f0ebd9445da609f5ea37e17cfa3b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:27 +0000
Subject: [PATCH 36/48] fix: count features and examples of metrics beyond 2^31

---
 reductionml-core/src/metrics/example_number.rs | 2 +-
 reductionml-core/src/metrics/metric.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/metrics/example_number.rs b/reductionml-core/src/metrics/example_number.rs
index 95adbec..3281e48 100644
--- a/reductionml-core/src/metrics/example_number.rs
+++ b/reductionml-core/src/metrics/example_number.rs
@@ -32,7 +32,7 @@ impl Metric for ExampleNumberMetric {
         if self.count == 0 {
             panic!("Cannot get value of ExampleNumberMetric with no points");
         }
-        MetricValue::Int(self.count as i32 - 1)
+        MetricValue::Int(self.count as i64 - 1)
     }
 
     fn get_name(&self) -> String {
diff --git a/reductionml-core/src/metrics/metric.rs b/reductionml-core/src/metrics/metric.rs
index 47a0c96..0c0375b 100644
--- a/reductionml-core/src/metrics/metric.rs
+++ b/reductionml-core/src/metrics/metric.rs
@@ -12,7 +12,7 @@ pub trait Metric {
 pub enum MetricValue {
     Bool(bool),
     Float(f32),
-    Int(i32),
+    Int(i64),
     String(String),
 }
 
-- 
2.43.0


From 3387ab03b2dd281932ca2d261dc8e2c37ccf7efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 37/48] fix: report an error for models that cannot be written
 as JSON

---
 reductionml-core/src/workspace.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index 6856d1f..fdcff29 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -95,7 +95,7 @@ fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) -> serde_json::
     Ok(())
 }
 
-fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) {
+fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) -> serde_json::Result<()> {
     match value {
         serde_json::Value::Object(map) => {
             if map.contains_key("weights")
@@ -105,22 +105,22 @@ fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) {
                 && map.contains_key("model_index_size_shift")
                 && map.contains_key("feature_state_size_shift")
             {
-                let wts: DenseWeights = serde_json::from_value(value.clone()).unwrap();
-                *value =
-                    serde_json::to_value(DenseWeightsWithNDArray::from_dense_weights(wts)).unwrap();
-                return;
+                let wts: DenseWeights = serde_json::from_value(value.clone())?;
+                *value = serde_json::to_value(DenseWeightsWithNDArray::from_dense_weights(wts))?;
+                return Ok(());
             }
             for (_, v) in map {
-                rewrite_json_sparse_to_ndarray(v);
+                rewrite_json_sparse_to_ndarray(v)?;
             }
         }
         serde_json::Value::Array(vec) => {
             for v in vec {
-                rewrite_json_sparse_to_ndarray(v);
+                rewrite_json_sparse_to_ndarray(v)?;
             }
         }
         _ => (),
     }
+    Ok(())
 }
 
 impl Workspace {
@@ -165,7 +165,8 @@ impl Workspace {
     // experimental
     pub fn serialize_to_json(&self) -> Result<Value> {
         let mut value = serde_json::to_value(self).unwrap();
-        rewrite_json_sparse_to_ndarray(&mut value);
+        // JSON cannot represent infinite and undefined weights.
+        rewrite_json_sparse_to_ndarray(&mut value)?;
         Ok(value)
     }
 
-- 
2.43.0


From b53d5d9de191df9e348e37874db9b84e325de46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:42 +0000
Subject: [PATCH 38/48] fix: raise an exception for models that cannot be
 written as JSON from Python

---
 reductionml-python/src/workspace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-python/src/workspace.rs b/reductionml-python/src/workspace.rs
index 616774d..49f64ec 100644
--- a/reductionml-python/src/workspace.rs
+++ b/reductionml-python/src/workspace.rs
@@ -148,12 +148,12 @@ impl WrappedWorkspace {
     }
 
     pub(crate) fn serialize(&self) -> PyResult<Vec<u8>> {
-        let data = self.0.serialize_model().unwrap();
+        let data = self.0.serialize_model().map_err(WrappedError::from)?;
         Ok(data)
     }
 
     pub(crate) fn serialize_to_json(&self) -> PyResult<PyObject> {
-        let data = self.0.serialize_to_json().unwrap();
+        let data = self.0.serialize_to_json().map_err(WrappedError::from)?;
         Python::with_gil(|py| {
             let data = pythonize(py, &data).unwrap();
             Ok(data.into_py(py))
-- 
2.43.0


From 5a5e54fa2a1f2924473cc95cafd54cc8bc870ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:23 +0000
Subject: [PATCH 39/48] fix: train the coin regressor with the configured loss
 function

---
 reductionml-core/src/loss_function/squared_loss.rs | 2 +-
 reductionml-core/src/reductions/coin.rs            | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/loss_function/squared_loss.rs b/reductionml-core/src/loss_function/squared_loss.rs
index bbc16d0..72431fe 100644
--- a/reductionml-core/src/loss_function/squared_loss.rs
+++ b/reductionml-core/src/loss_function/squared_loss.rs
@@ -7,7 +7,7 @@ use crate::loss_function::LossFunctionImpl;
 pub struct SquaredLoss {}
 
 impl SquaredLoss {
-    pub(crate) fn new() -> SquaredLoss {
+    pub fn new() -> SquaredLoss {
         SquaredLoss {}
     }
 }
diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index e868833..7db48f0 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -98,7 +98,6 @@ struct CoinRegressor {
     average_squared_norm_x: f32,
     min_label: f32,
     max_label: f32,
-    // TODO allow this to be chosen
     loss_function: LossFunction,
     pairs: Vec<(Namespace, Namespace)>,
     triples: Vec<(Namespace, Namespace, Namespace)>,
@@ -121,6 +120,8 @@ impl CoinRegressor {
             LossFunction::Logistic(_) => (-50.0, 50.0),
         };
 
+        let loss_function = config.loss_function;
+
         Ok(CoinRegressor {
             weights: DenseWeights::new(
                 bits_to_max_feature_index(global_config.num_bits()),
@@ -138,7 +139,7 @@ impl CoinRegressor {
             average_squared_norm_x: 0.0,
             min_label,
             max_label,
-            loss_function: LossFunction::Squared(SquaredLoss::new()),
+            loss_function,
             pairs,
             triples,
             num_bits: global_config.num_bits(),
-- 
2.43.0


From 74c81c9061e307eaab3a4e5f2088c8392d4b44be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:19 +0000
Subject: [PATCH 40/48] fix: refuse binary models whose weights do not fit
 their sizes

---
 reductionml-core/src/dense_weights.rs | 101 +++++++++++++++++++-------
 1 file changed, 76 insertions(+), 25 deletions(-)

diff --git a/reductionml-core/src/dense_weights.rs b/reductionml-core/src/dense_weights.rs
index 3fbdc29..dca3d81 100644
--- a/reductionml-core/src/dense_weights.rs
+++ b/reductionml-core/src/dense_weights.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use approx::AbsDiffEq;
-use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use serde::{Deserialize, Serialize, Serializer};
 
 use crate::{
     error::{Error, Result},
@@ -14,11 +14,9 @@ fn num_bits_to_represent(val: u64) -> u64 {
 }
 
 #[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
+#[serde(try_from = "UncheckedDenseWeights")]
 pub struct DenseWeights {
-    #[serde(
-        deserialize_with = "deserialize_sparse_f32_vec",
-        serialize_with = "serialize_sparse_f32_vec"
-    )]
+    #[serde(serialize_with = "serialize_sparse_f32_vec")]
     weights: Vec<f32>,
     // Max size of index
     feature_index_size: FeatureIndex,
@@ -29,6 +27,72 @@ pub struct DenseWeights {
     feature_state_size_shift: u8,
 }
 
+/// Weights as they are stored, which may not fit the sizes stored with them.
+#[derive(Deserialize)]
+struct UncheckedDenseWeights {
+    weights: SparseF32Vec,
+    feature_index_size: FeatureIndex,
+    model_index_size: ModelIndex,
+    feature_state_size: StateIndex,
+    model_index_size_shift: u8,
+    feature_state_size_shift: u8,
+}
+
+impl TryFrom<UncheckedDenseWeights> for DenseWeights {
+    type Error = Error;
+
+    fn try_from(stored: UncheckedDenseWeights) -> Result<DenseWeights> {
+        let len = check_sizes(
+            stored.feature_index_size,
+            stored.model_index_size,
+            stored.feature_state_size,
+            stored.model_index_size_shift,
+            stored.feature_state_size_shift,
+        )?;
+        if stored.weights.len != len as u64 {
+            return Err(Error::InvalidArgument(
+                "Invalid weights: number of weights does not match sizes".to_owned(),
+            ));
+        }
+        Ok(DenseWeights {
+            weights: stored.weights.to_dense()?,
+            feature_index_size: stored.feature_index_size,
+            model_index_size: stored.model_index_size,
+            feature_state_size: stored.feature_state_size,
+            model_index_size_shift: stored.model_index_size_shift,
+            feature_state_size_shift: stored.feature_state_size_shift,
+        })
+    }
+}
+
+/// Number of weights in the space described by the sizes, if they fit together and it can be had.
+fn check_sizes(
+    feature_index_size: FeatureIndex,
+    model_index_size: ModelIndex,
+    feature_state_size: StateIndex,
+    model_index_size_shift: u8,
+    feature_state_size_shift: u8,
+) -> Result<usize> {
+    let invalid = |what: &str| Error::InvalidArgument(format!("Invalid weights: {what}"));
+    if *feature_index_size == 0 || *model_index_size == 0 || *feature_state_size == 0 {
+        return Err(invalid("sizes must not be zero"));
+    }
+    let shift = |size: u64| num_bits_to_represent(size - 1);
+    if model_index_size_shift as u64 != shift(*model_index_size as u64)
+        || feature_state_size_shift as u64 != shift(*feature_state_size as u64)
+    {
+        return Err(invalid("shifts do not match sizes"));
+    }
+    let len = 1_usize
+        << (shift(*feature_index_size as u64)
+            + model_index_size_shift as u64
+            + feature_state_size_shift as u64);
+    Vec::<f32>::new()
+        .try_reserve_exact(len)
+        .map_err(|_| invalid("not enough memory"))?;
+    Ok(len)
+}
+
 impl AbsDiffEq for DenseWeights {
     type Epsilon = f32;
 
@@ -109,18 +173,13 @@ impl DenseWeightsWithNDArray {
     /// Whether all weights have their place in the space described by the sizes.
     pub(crate) fn check(&self) -> Result<()> {
         let invalid = |what: &str| Err(Error::InvalidArgument(format!("Invalid weights: {what}")));
-        if *self.feature_index_size == 0
-            || *self.model_index_size == 0
-            || *self.feature_state_size == 0
-        {
-            return invalid("sizes must not be zero");
-        }
-        let shift = |size: u64| num_bits_to_represent(size - 1);
-        if self.model_index_size_shift as u64 != shift(*self.model_index_size as u64)
-            || self.feature_state_size_shift as u64 != shift(*self.feature_state_size as u64)
-        {
-            return invalid("shifts do not match sizes");
-        }
+        check_sizes(
+            self.feature_index_size,
+            self.model_index_size,
+            self.feature_state_size,
+            self.model_index_size_shift,
+            self.feature_state_size_shift,
+        )?;
         for (feature_index, feature) in &self.weights {
             if *feature_index >= self.feature_index_size {
                 return invalid("feature index is out of range");
@@ -213,14 +272,6 @@ where
     sparse_vec.serialize(serializer)
 }
 
-fn deserialize_sparse_f32_vec<'de, D>(deserializer: D) -> std::result::Result<Vec<f32>, D::Error>
-where
-    D: Deserializer<'de>,
-{
-    let sparse_vec = SparseF32Vec::deserialize(deserializer)?;
-    sparse_vec.to_dense().map_err(serde::de::Error::custom)
-}
-
 impl DenseWeights {
     fn convert_index(
         &self,
-- 
2.43.0


From 952e30aae97066576c58c39d8258d4479861ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 41/48] fix: bound the indent of Debug by the widths that can
 be printed

---
 reductionml-core/src/reductions/debug.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/reductions/debug.rs b/reductionml-core/src/reductions/debug.rs
index 4226618..48ac361 100644
--- a/reductionml-core/src/reductions/debug.rs
+++ b/reductionml-core/src/reductions/debug.rs
@@ -29,7 +29,7 @@ pub struct DebugConfig {
     #[serde(default = "default_false")]
     features: bool,
     #[serde(default = "default_indent")]
-    indent: usize,
+    indent: u16,
     #[serde(default = "default_next")]
     #[schemars(schema_with = "crate::config_schema::gen_json_reduction_config_schema")]
     next: JsonReductionConfig,
@@ -43,7 +43,7 @@ fn default_false() -> bool {
     false
 }
 
-fn default_indent() -> usize {
+fn default_indent() -> u16 {
     0
 }
 
@@ -67,7 +67,7 @@ impl ReductionConfig for DebugConfig {
 #[derive(Serialize, Deserialize)]
 struct DebugReduction {
     id: String,
-    indent: usize,
+    indent: u16,
     prediction: bool,
     label: bool,
     features: bool,
@@ -134,7 +134,7 @@ impl DebugReduction {
         msg: S,
     ) {
         let space = " ";
-        let indent = self.indent;
+        let indent = usize::from(self.indent);
         let id = &self.id;
         let func = func.as_ref();
         let msg = msg.as_ref();
-- 
2.43.0


From 7fa59b201cfd2372220b5ee7e67c2743e64bbb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:51 +0000
Subject: [PATCH 42/48] fix: publish the bound of the indent of Debug in the
 latest schema

---
 schemas/config/latest/schema.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemas/config/latest/schema.json b/schemas/config/latest/schema.json
index 7987214..e226dc9 100644
--- a/schemas/config/latest/schema.json
+++ b/schemas/config/latest/schema.json
@@ -348,7 +348,7 @@
             "indent": {
               "default": 0,
               "type": "integer",
-              "format": "uint",
+              "format": "uint16",
               "minimum": 0.0
             },
             "label": {
-- 
2.43.0


From ac33547f4675e1b179af6ad73122560e56ad2a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:19 +0000
Subject: [PATCH 43/48] fix: keep softmax with a negative lambda within the
 range of numbers

---
 .../src/reductions/cb_explore_adf_softmax.rs           | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
index bc7f34d..a52a1c9 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
@@ -127,7 +127,15 @@ impl ReductionImpl for CBExploreAdfSoftmaxReduction {
             .0
             .iter()
             .enumerate()
-            .min_by(|(_, a), (_, b)| a.1.partial_cmp(&b.1).unwrap())
+            .min_by(|(_, a), (_, b)| {
+                // The action of the largest weight, so that no weight overflows
+                let order = a.1.partial_cmp(&b.1).unwrap();
+                if self.config.lambda < 0.0 {
+                    order.reverse()
+                } else {
+                    order
+                }
+            })
             .map(|(index, _)| index)
             .unwrap();
         let best_score = scores.0[best_idx].1;
-- 
2.43.0


From c6af9afbb6a08737ad95ca64812ea68501023deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:41 +0000
Subject: [PATCH 44/48] fix: refuse exploration parameters which give no
 probabilities

---
 reductionml-core/src/explore.rs               | 22 +++++++++++++++++++
 .../src/reductions/cb_explore_adf_softmax.rs  |  3 ++-
 .../src/reductions/cb_explore_adf_squarecb.rs |  3 ++-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/explore.rs b/reductionml-core/src/explore.rs
index dc22d5f..b8d525b 100644
--- a/reductionml-core/src/explore.rs
+++ b/reductionml-core/src/explore.rs
@@ -11,6 +11,28 @@ pub(crate) fn check_epsilon(epsilon: f32) -> Result<()> {
     }
 }
 
+pub(crate) fn check_lambda(lambda: f32) -> Result<()> {
+    if lambda.is_finite() {
+        Ok(())
+    } else {
+        Err(crate::error::Error::InvalidArgument(format!(
+            "lambda must be finite, but is {}",
+            lambda
+        )))
+    }
+}
+
+pub(crate) fn check_gamma(scale: f32, exponent: f32) -> Result<()> {
+    if [scale, exponent].iter().all(|x| x.is_finite() && *x >= 0.0) {
+        Ok(())
+    } else {
+        Err(crate::error::Error::InvalidArgument(format!(
+            "gamma scale and exponent must be finite and not negative, but are {} and {}",
+            scale, exponent
+        )))
+    }
+}
+
 pub fn enforce_min_prob(
     uniform_epsilon: f32,
     consider_zero_valued_elements: bool,
diff --git a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
index a52a1c9..7af154c 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
@@ -8,7 +8,7 @@ use crate::reduction_factory::{
     create_reduction, JsonReductionConfig, PascalCaseString, ReductionConfig, ReductionFactory,
 };
 
-use crate::explore::{check_epsilon, enforce_min_prob};
+use crate::explore::{check_epsilon, check_lambda, enforce_min_prob};
 use crate::{impl_default_factory_functions, types::*, ModelIndex};
 use schemars::schema::RootSchema;
 use schemars::{schema_for, JsonSchema};
@@ -79,6 +79,7 @@ impl ReductionFactory for CBExploreAdfSoftmaxReductionFactory {
             .downcast_ref::<CBExploreAdfSoftmaxConfig>()
             .unwrap();
         check_epsilon(config.uniform_epsilon)?;
+        check_lambda(config.lambda)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         let cb_adf: ReductionWrapper =
             create_reduction(cb_adf_config.as_ref(), global_config, num_models_above)?;
diff --git a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
index 44a50a2..db05b28 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
@@ -16,7 +16,7 @@ use serde::{Deserialize, Serialize};
 use serde_default::DefaultFromSerde;
 use serde_json::json;
 
-use crate::explore::{check_epsilon, enforce_min_prob};
+use crate::explore::{check_epsilon, check_gamma, enforce_min_prob};
 
 use super::{CBAdfConfig, CBType};
 
@@ -88,6 +88,7 @@ impl ReductionFactory for CBExploreAdfSquareCBReductionFactory {
             .downcast_ref::<CBExploreAdfSquareCBConfig>()
             .unwrap();
         check_epsilon(config.uniform_epsilon)?;
+        check_gamma(config.gamma_scale, config.gamma_exponent)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         // Try checking for MTR
         if let Some(cfg) = cb_adf_config.as_any().downcast_ref::<CBAdfConfig>() {
-- 
2.43.0


From 020a94bd0d3f14575631f44f7e4e5678594db838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:16 +0000
Subject: [PATCH 45/48] fix: keep the gamma of square-cb within the range of
 numbers

---
 reductionml-core/src/reductions/cb_explore_adf_squarecb.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
index db05b28..6606741 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
@@ -141,8 +141,10 @@ impl ReductionImpl for CBExploreAdfSquareCBReduction {
         depth_info: &mut DepthInfo,
         _model_offset: ModelIndex,
     ) -> Prediction {
-        let gamma =
-            self.config.gamma_scale * (self.counter as f32).powf(self.config.gamma_exponent);
+        // Finite, so that tied actions keep a difference of zero
+        let gamma = (self.config.gamma_scale
+            * (self.counter as f32).powf(self.config.gamma_exponent))
+        .min(f32::MAX);
 
         let pred = self.cb_adf.predict(features, depth_info, 0.into());
         let mut scores: ActionScoresPrediction = pred.try_into().unwrap();
-- 
2.43.0


From 4fa2ee951ba3bcf6102df48d528a5ae0b35783ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:38 +0000
Subject: [PATCH 46/48] fix: infinite and undefined feature values are equal to
 themselves

Comparing an example that holds such a value with itself failed, so that debug
builds panicked after each prediction and learning step.
---
 reductionml-core/src/sparse_namespaced_features.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index 410a4d9..e90b5bf 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -82,7 +82,8 @@ impl AbsDiffEq for SparseFeaturesNamespace {
                 .feature_values
                 .iter()
                 .zip(other.feature_values.iter())
-                .all(|(a, b)| a.abs_diff_eq(b, epsilon))
+                // Infinite and undefined values differ from themselves by an undefined amount.
+                .all(|(a, b)| a == b || (a.is_nan() && b.is_nan()) || a.abs_diff_eq(b, epsilon))
     }
 }
 
-- 
2.43.0


From cb6bdcef443a696f2d5708b502f6844dcbee34e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:25 +0000
Subject: [PATCH 47/48] fix: keep differences of scores finite in softmax and
 square-cb

Scores that are infinite or further apart than the largest number led to
undefined probabilities.
---
 reductionml-core/src/explore.rs                          | 9 +++++++++
 .../src/reductions/cb_explore_adf_softmax.rs             | 4 ++--
 .../src/reductions/cb_explore_adf_squarecb.rs            | 5 +++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/explore.rs b/reductionml-core/src/explore.rs
index b8d525b..4aea6a7 100644
--- a/reductionml-core/src/explore.rs
+++ b/reductionml-core/src/explore.rs
@@ -33,6 +33,15 @@ pub(crate) fn check_gamma(scale: f32, exponent: f32) -> Result<()> {
     }
 }
 
+/// Difference between two scores, which is finite also if they are far apart or infinite.
+pub(crate) fn score_difference(score: f32, best_score: f32) -> f32 {
+    if score == best_score {
+        0.0
+    } else {
+        (score - best_score).clamp(f32::MIN, f32::MAX)
+    }
+}
+
 pub fn enforce_min_prob(
     uniform_epsilon: f32,
     consider_zero_valued_elements: bool,
diff --git a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
index 7af154c..3804b3d 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
@@ -8,7 +8,7 @@ use crate::reduction_factory::{
     create_reduction, JsonReductionConfig, PascalCaseString, ReductionConfig, ReductionFactory,
 };
 
-use crate::explore::{check_epsilon, check_lambda, enforce_min_prob};
+use crate::explore::{check_epsilon, check_lambda, enforce_min_prob, score_difference};
 use crate::{impl_default_factory_functions, types::*, ModelIndex};
 use schemars::schema::RootSchema;
 use schemars::{schema_for, JsonSchema};
@@ -144,7 +144,7 @@ impl ReductionImpl for CBExploreAdfSoftmaxReduction {
         let mut total_weight = 0.0;
 
         for (_, score) in scores.0.iter_mut() {
-            *score = (-self.config.lambda * (*score - best_score)).exp();
+            *score = (-self.config.lambda * score_difference(*score, best_score)).exp();
             total_weight += *score;
         }
         for (_, score) in scores.0.iter_mut() {
diff --git a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
index 6606741..d164687 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
@@ -16,7 +16,7 @@ use serde::{Deserialize, Serialize};
 use serde_default::DefaultFromSerde;
 use serde_json::json;
 
-use crate::explore::{check_epsilon, check_gamma, enforce_min_prob};
+use crate::explore::{check_epsilon, check_gamma, enforce_min_prob, score_difference};
 
 use super::{CBAdfConfig, CBType};
 
@@ -165,7 +165,8 @@ impl ReductionImpl for CBExploreAdfSquareCBReduction {
             if *action == best_action {
                 continue;
             }
-            *score = 1.0 / ((num_actions as f32) + gamma * (*score - best_score));
+            let difference = score_difference(*score, best_score);
+            *score = 1.0 / ((num_actions as f32) + gamma * difference);
             total_weight += *score;
         }
 
-- 
2.43.0


From 508550f08d98d2491864c449abdd65f10b40be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:06 +0000
Subject: [PATCH 48/48] fix: keep the probability of the best square-cb action
 exact for many actions

---
 reductionml-core/src/reductions/cb_explore_adf_squarecb.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
index d164687..b0af203 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
@@ -158,7 +158,8 @@ impl ReductionImpl for CBExploreAdfSquareCBReduction {
         let best_score = scores.0[best_idx].1;
         let best_action = scores.0[best_idx].0;
 
-        let mut total_weight = 0.0;
+        // In double precision, as for many actions what is left is smaller than the rounding errors
+        let mut total_weight: f64 = 0.0;
 
         let num_actions = scores.0.len();
         for (action, score) in scores.0.iter_mut() {
@@ -167,10 +168,10 @@ impl ReductionImpl for CBExploreAdfSquareCBReduction {
             }
             let difference = score_difference(*score, best_score);
             *score = 1.0 / ((num_actions as f32) + gamma * difference);
-            total_weight += *score;
+            total_weight += *score as f64;
         }
 
-        scores.0[best_idx].1 = 1.0 - total_weight;
+        scores.0[best_idx].1 = (1.0 - total_weight) as f32;
 
         enforce_min_prob(self.config.uniform_epsilon, false, &mut scores.0).unwrap();
 
-- 
2.43.0

