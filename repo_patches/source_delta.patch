From 4a8e157d33718c4303c5eb71ca3d8ef446de46e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 01/21] fix: reserving space in a recycled namespace must not
 underflow

---
 reductionml-core/src/sparse_namespaced_features.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index d9490b4..6589d4b 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -129,10 +129,11 @@ impl SparseFeaturesNamespace {
     }
 
     pub fn reserve(&mut self, size: usize) {
+        // A recycled namespace can already have more capacity than asked for.
         self.feature_indices
-            .reserve_exact(size - self.feature_indices.capacity());
+            .reserve_exact(size.saturating_sub(self.feature_indices.len()));
         self.feature_values
-            .reserve(size - self.feature_values.capacity());
+            .reserve(size.saturating_sub(self.feature_values.len()));
     }
 
     pub fn add_feature(&mut self, feature_index: FeatureIndex, feature_value: f32) {
-- 
2.43.0


From 6f30ee12239f524dedd5c6fb772057f7f3c568cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 02/21] fix: training on an empty data set must not panic when
 reporting results

---
 reductionml-cli/src/train.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 8107083..31909de 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -383,7 +383,8 @@ impl Command for TrainCommand {
             }
         }
 
-        if !quiet {
+        // With no examples there is nothing to report.
+        if !quiet && manager.iteration > 0 {
             manager.add_results(metrics.iter().map(|x| x.get_value()).collect());
             manager.render_table_to_stdout();
         }
-- 
2.43.0


From 5a03e6e0f2a3fb7a6319e1587be03f37d3668645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 03/21] fix: a failure in one training thread must end the
 command instead of blocking it

---
 reductionml-cli/src/train.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 31909de..8f47e27 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -5,11 +5,12 @@ use std::{
     cell::UnsafeCell,
     fs::File,
     io::{self, stdout, Write},
+    panic::{catch_unwind, AssertUnwindSafe},
     str::FromStr,
     sync::{atomic::Ordering, Arc},
 };
 
-use anyhow::{Context, Result};
+use anyhow::{anyhow, Context, Result};
 
 use clap::{Args, ValueHint};
 use owo_colors::OwoColorize;
@@ -327,6 +328,13 @@ impl Command for TrainCommand {
                 let (parse_sender, parse_receiver) = flume::bounded(args.queue_size);
                 let (learn_sender, learn_receiver) = flume::bounded(args.queue_size);
                 std::thread::scope(|s| -> Result<()> {
+                    // The receiving ends are owned here and by the parse threads, so that if they
+                    // stop early the input thread is told instead of waiting for ever.
+                    let parse_receiver = parse_receiver;
+                    let learn_receiver = learn_receiver;
+                    let parser = &parser;
+                    let string_pool = &string_pool;
+
                     // Input thread
                     s.spawn(|| {
                         loop {
@@ -335,8 +343,11 @@ impl Command for TrainCommand {
                                 .unwrap()
                             {
                                 let res = Arc::new(ParseResult::new(chunk));
-                                parse_sender.send(res.clone()).unwrap();
-                                learn_sender.send(res).unwrap();
+                                if parse_sender.send(res.clone()).is_err()
+                                    || learn_sender.send(res).is_err()
+                                {
+                                    break;
+                                }
                             } else {
                                 break;
                             }
@@ -346,18 +357,25 @@ impl Command for TrainCommand {
                     });
 
                     for _ in 0..n {
-                        s.spawn(|| loop {
+                        let parse_receiver = parse_receiver.clone();
+                        s.spawn(move || loop {
                             match parse_receiver.recv() {
                                 Ok(res) => {
                                     let input = res.get_input();
-                                    let parsed = parser.parse_chunk(&input);
+                                    // The learner waits for this result, so it must be set even if
+                                    // the parser panics.
+                                    let parsed = catch_unwind(AssertUnwindSafe(|| {
+                                        parser.parse_chunk(&input).map_err(|e| anyhow!(e))
+                                    }))
+                                    .unwrap_or_else(|_| Err(anyhow!("Failed to parse example")));
                                     string_pool.return_object(input);
-                                    res.set_result(parsed.map_err(|e| anyhow::anyhow!(e)));
+                                    res.set_result(parsed);
                                 }
                                 Err(_) => break,
                             }
                         });
                     }
+                    std::mem::drop(parse_receiver);
 
                     loop {
                         let res = learn_receiver.recv();
-- 
2.43.0


From 7a8c14c96224ea52ad9cc0b2972d2543ddd99955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 04/21] fix: report a failure to write the end of the
 predictions file

---
 reductionml-cli/src/train.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 8f47e27..592fe20 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -401,6 +401,11 @@ impl Command for TrainCommand {
             }
         }
 
+        if let Some(file) = predictions_file.as_mut() {
+            file.flush()
+                .with_context(|| "Failed to write predictions file")?;
+        }
+
         // With no examples there is nothing to report.
         if !quiet && manager.iteration > 0 {
             manager.add_results(metrics.iter().map(|x| x.get_value()).collect());
-- 
2.43.0


From d5ef8a9148a6a337746d2ed0f741c844e091a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 05/21] fix: replace model files atomically

---
 reductionml-cli/src/import_model.rs |  4 +--
 reductionml-cli/src/main.rs         |  1 +
 reductionml-cli/src/model_file.rs   | 43 +++++++++++++++++++++++++++++
 reductionml-cli/src/train.rs        |  4 +--
 4 files changed, 48 insertions(+), 4 deletions(-)
 create mode 100644 reductionml-cli/src/model_file.rs

diff --git a/reductionml-cli/src/import_model.rs b/reductionml-cli/src/import_model.rs
index 7f5a94a..503f8ea 100644
--- a/reductionml-cli/src/import_model.rs
+++ b/reductionml-cli/src/import_model.rs
@@ -2,7 +2,7 @@ use clap::Args;
 use owo_colors::OwoColorize;
 use reductionml_core::workspace::Workspace;
 
-use crate::command::Command;
+use crate::{command::Command, model_file::write_model_file};
 
 use anyhow::Result;
 
@@ -29,7 +29,7 @@ impl Command for ImportModelCommand {
         let json = serde_json::from_slice(&input_data).unwrap();
         let workspace = Workspace::deserialize_from_json(&json).unwrap();
         let data = workspace.serialize_model().unwrap();
-        std::fs::write(&args.output_model, data).unwrap();
+        write_model_file(&args.output_model, &data)?;
 
         Ok(())
     }
diff --git a/reductionml-cli/src/main.rs b/reductionml-cli/src/main.rs
index 9058119..7082083 100644
--- a/reductionml-cli/src/main.rs
+++ b/reductionml-cli/src/main.rs
@@ -19,6 +19,7 @@ mod export_model;
 mod gen_completions;
 mod gen_schema;
 mod import_model;
+mod model_file;
 mod test;
 mod train;
 
diff --git a/reductionml-cli/src/model_file.rs b/reductionml-cli/src/model_file.rs
new file mode 100644
index 0000000..c6185a5
--- /dev/null
+++ b/reductionml-cli/src/model_file.rs
@@ -0,0 +1,43 @@
+use std::{
+    fs::{self, File},
+    io::{self, Write},
+    path::Path,
+};
+
+use anyhow::{Context, Result};
+
+/// Writes a model file such that at every point in time, even after a crash, the
+/// path holds either its previous content or the complete new model.
+pub(crate) fn write_model_file(path: &str, data: &[u8]) -> Result<()> {
+    write_atomically(Path::new(path), data)
+        .with_context(|| format!("Failed to write model file: {}", path))
+}
+
+fn write_atomically(path: &Path, data: &[u8]) -> io::Result<()> {
+    // If the path is a link then it is the file it leads to that gets replaced.
+    let target = fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+    let existing = fs::metadata(&target).ok();
+    let file_name = match (&existing, target.file_name()) {
+        (Some(metadata), _) if !metadata.is_file() => return fs::write(&target, data),
+        (_, None) => return fs::write(&target, data),
+        (_, Some(file_name)) => file_name,
+    };
+
+    let mut temp_name = file_name.to_os_string();
+    temp_name.push(format!(".{}.tmp", std::process::id()));
+    let temp = target.with_file_name(temp_name);
+    let result = write_and_sync(&temp, data, existing).and_then(|()| fs::rename(&temp, &target));
+    if result.is_err() {
+        let _ = fs::remove_file(&temp);
+    }
+    result
+}
+
+fn write_and_sync(path: &Path, data: &[u8], existing: Option<fs::Metadata>) -> io::Result<()> {
+    let mut file = File::create(path)?;
+    file.write_all(data)?;
+    if let Some(metadata) = existing {
+        file.set_permissions(metadata.permissions())?;
+    }
+    file.sync_all()
+}
diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 592fe20..f450525 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -24,7 +24,7 @@ use reductionml_core::{
     Features, Label,
 };
 
-use crate::{command::Command, DataFormat, InputConfigArg};
+use crate::{command::Command, model_file::write_model_file, DataFormat, InputConfigArg};
 
 // TODO: multipass
 // TODO: test file for metrics
@@ -414,7 +414,7 @@ impl Command for TrainCommand {
 
         if let Some(file) = &args.output_model {
             let data = workspace.serialize_model().unwrap();
-            std::fs::write(file, data).unwrap();
+            write_model_file(file, &data)?;
         }
 
         Ok(())
-- 
2.43.0


From 2e9c0f24f3ccf9ae14859bef2b77b96f250d24b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 06/21] fix: recycled features must not expose or compare
 leftover namespaces

---
 .../src/sparse_namespaced_features.rs         | 37 +++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index 6589d4b..4f0a705 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -19,19 +19,22 @@ pub struct NamespaceIterator<'a> {
     values: std::slice::Iter<'a, f32>,
 }
 
-// TODO this should be skipping inactive namespaces.
 impl<'a> Iterator for NamespacesIterator<'a> {
     type Item = (Namespace, NamespaceIterator<'a>);
     fn next(&mut self) -> Option<Self::Item> {
-        self.namespaces.next().map(|(namespace_feats, namespace)| {
-            (
-                *namespace_feats,
-                NamespaceIterator {
-                    indices: namespace.feature_indices.iter(),
-                    values: namespace.feature_values.iter(),
-                },
-            )
-        })
+        // Inactive namespaces are leftovers of an earlier use of a recycled object.
+        self.namespaces
+            .by_ref()
+            .find(|(_, namespace)| namespace.is_active())
+            .map(|(namespace_feats, namespace)| {
+                (
+                    *namespace_feats,
+                    NamespaceIterator {
+                        indices: namespace.feature_indices.iter(),
+                        values: namespace.feature_values.iter(),
+                    },
+                )
+            })
     }
 }
 
@@ -200,11 +203,23 @@ impl Namespace {
     }
 }
 
-#[derive(PartialEq, Clone, Debug)]
+#[derive(Clone, Debug)]
 pub struct SparseFeatures {
     namespaces: std::collections::BTreeMap<Namespace, SparseFeaturesNamespace>,
 }
 
+impl PartialEq for SparseFeatures {
+    fn eq(&self, other: &Self) -> bool {
+        // Inactive namespaces are leftovers of an earlier use of a recycled object.
+        let active =
+            |(_, namespace): &(&Namespace, &SparseFeaturesNamespace)| namespace.is_active();
+        self.namespaces
+            .iter()
+            .filter(active)
+            .eq(other.namespaces.iter().filter(active))
+    }
+}
+
 impl Default for SparseFeatures {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 5ce16392a77c1e5aaaeea27a1fdf5a57ef8ca9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:02 +0000
Subject: [PATCH 07/21] fix: predicting and learning must not drop an empty
 namespace from the features

---
 reductionml-core/src/sparse_namespaced_features.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index 4f0a705..cfb036c 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -69,6 +69,8 @@ pub struct SparseFeaturesNamespace {
     /// it is used to avoid iterating over the namespace when it is not active
     /// and also allow for object reuse
     active: bool,
+    /// set if the namespace is only active because of SparseFeatures::append
+    activated_by_append: bool,
 }
 
 impl AbsDiffEq for SparseFeaturesNamespace {
@@ -111,6 +113,7 @@ impl SparseFeaturesNamespace {
             feature_indices: Vec::new(),
             feature_values: Vec::new(),
             active: false,
+            activated_by_append: false,
         }
     }
 
@@ -120,6 +123,7 @@ impl SparseFeaturesNamespace {
             feature_indices: Vec::with_capacity(capacity),
             feature_values: Vec::with_capacity(capacity),
             active: false,
+            activated_by_append: false,
         }
     }
 
@@ -369,6 +373,7 @@ impl SparseFeatures {
         for namespace in self.namespaces.values_mut() {
             namespace.clear();
             namespace.set_active(false);
+            namespace.activated_by_append = false;
         }
     }
 
@@ -417,7 +422,11 @@ impl SparseFeatures {
     pub fn append(&mut self, other: &SparseFeatures) {
         for (ns, feats) in &other.namespaces {
             if feats.active {
+                let was_active = self.get_namespace(*ns).is_some();
                 let container = self.get_or_create_namespace_with_capacity(*ns, feats.size());
+                if !was_active {
+                    container.activated_by_append = true;
+                }
                 container.add_features(&feats.feature_indices, &feats.feature_values);
             }
         }
@@ -433,8 +442,9 @@ impl SparseFeatures {
                 container.feature_indices.truncate(size - feats.size());
                 container.feature_values.truncate(size - feats.size());
 
-                // If the container is now empty, deactivate it.
-                if container.size() == 0 {
+                // If the container was not there before append, deactivate it.
+                if container.activated_by_append {
+                    container.activated_by_append = false;
                     container.set_active(false);
                 }
             }
-- 
2.43.0


From b4ff9b67f7f0fa82ddb2ee939dce0dd5beb99db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 08/21] fix: the uniform floor of softmax and SquareCB must
 include actions with zero probability

---
 reductionml-core/src/reductions/cb_explore_adf_softmax.rs  | 2 +-
 reductionml-core/src/reductions/cb_explore_adf_squarecb.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
index 84d5365..6bdf2ba 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
@@ -141,7 +141,7 @@ impl ReductionImpl for CBExploreAdfSoftmaxReduction {
             *score /= total_weight;
         }
 
-        enforce_min_prob(self.config.uniform_epsilon, false, &mut scores.0).unwrap();
+        enforce_min_prob(self.config.uniform_epsilon, true, &mut scores.0).unwrap();
 
         Prediction::ActionProbs(ActionProbsPrediction(scores.0))
     }
diff --git a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
index c86a086..9461895 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
@@ -167,7 +167,7 @@ impl ReductionImpl for CBExploreAdfSquareCBReduction {
 
         scores.0[best_idx].1 = 1.0 - total_weight;
 
-        enforce_min_prob(self.config.uniform_epsilon, false, &mut scores.0).unwrap();
+        enforce_min_prob(self.config.uniform_epsilon, true, &mut scores.0).unwrap();
 
         Prediction::ActionProbs(ActionProbsPrediction(scores.0))
     }
-- 
2.43.0


From 720490bfeddc3ad56902b1e81fad0024400f7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:49 +0000
Subject: [PATCH 09/21] fix: a damaged model file must be reported as an error
 instead of panicking

Workspace::create_from_model panicked on any truncated model, and stored weights
were neither bounds checked nor sized consistently when loaded.
---
 reductionml-cli/src/export_model.rs   |  8 ++--
 reductionml-core/src/dense_weights.rs | 64 ++++++++++++++++++++-------
 reductionml-core/src/workspace.rs     | 10 ++++-
 3 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/reductionml-cli/src/export_model.rs b/reductionml-cli/src/export_model.rs
index eb146e4..8e7ef1e 100644
--- a/reductionml-cli/src/export_model.rs
+++ b/reductionml-cli/src/export_model.rs
@@ -4,7 +4,7 @@ use reductionml_core::workspace::Workspace;
 
 use crate::command::Command;
 
-use anyhow::Result;
+use anyhow::{Context, Result};
 
 // TODO: add warning that weights are not printed in any nice way at the moment
 #[derive(Args)]
@@ -23,8 +23,10 @@ impl Command for ExportModelCommand {
             "{} Exporting a model to JSON is not a supported feature. Use at your own risk.",
             "Warning:".yellow()
         );
-        let input_model_data = std::fs::read(&args.input_model).unwrap();
-        let workspace = Workspace::create_from_model(&input_model_data).unwrap();
+        let input_model_data = std::fs::read(&args.input_model)
+            .with_context(|| format!("Failed to open model file: {}", args.input_model))?;
+        let workspace = Workspace::create_from_model(&input_model_data)
+            .with_context(|| format!("Failed to load model from file: {}", args.input_model))?;
         let json = workspace.serialize_to_json().unwrap();
         println!("{}", serde_json::to_string_pretty(&json).unwrap());
         Ok(())
diff --git a/reductionml-core/src/dense_weights.rs b/reductionml-core/src/dense_weights.rs
index cb0805a..aa7cfeb 100644
--- a/reductionml-core/src/dense_weights.rs
+++ b/reductionml-core/src/dense_weights.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use approx::AbsDiffEq;
-use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use serde::{Deserialize, Serialize, Serializer};
 
 use crate::{
     error::{Error, Result},
@@ -14,11 +14,9 @@ fn num_bits_to_represent(val: u64) -> u64 {
 }
 
 #[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
+#[serde(try_from = "StoredDenseWeights")]
 pub struct DenseWeights {
-    #[serde(
-        deserialize_with = "deserialize_sparse_f32_vec",
-        serialize_with = "serialize_sparse_f32_vec"
-    )]
+    #[serde(serialize_with = "serialize_sparse_f32_vec")]
     weights: Vec<f32>,
     // Max size of index
     feature_index_size: FeatureIndex,
@@ -159,12 +157,54 @@ impl SparseF32Vec {
         }
     }
 
-    fn to_dense(&self) -> Vec<f32> {
+    fn to_dense(&self) -> Result<Vec<f32>> {
         let mut vec = vec![0.0; self.len as usize];
         for (index, value) in self.non_zero_value_and_index_pairs.iter() {
-            vec[*index] = *value;
+            *vec.get_mut(*index).ok_or_else(|| {
+                Error::InvalidArgument(format!("Weight index {index} is out of range"))
+            })? = *value;
         }
-        vec
+        Ok(vec)
+    }
+}
+
+// The stored form of DenseWeights, which has yet to be checked for consistency.
+#[derive(Deserialize)]
+struct StoredDenseWeights {
+    weights: SparseF32Vec,
+    feature_index_size: FeatureIndex,
+    model_index_size: ModelIndex,
+    feature_state_size: StateIndex,
+    model_index_size_shift: u8,
+    feature_state_size_shift: u8,
+}
+
+impl TryFrom<StoredDenseWeights> for DenseWeights {
+    type Error = Error;
+
+    fn try_from(stored: StoredDenseWeights) -> Result<DenseWeights> {
+        let shift = |size: u64| num_bits_to_represent(size.saturating_sub(1));
+        let feature_index_size_shift = shift(*stored.feature_index_size as u64);
+        let model_index_size_shift = shift(*stored.model_index_size as u64);
+        let feature_state_size_shift = shift(*stored.feature_state_size as u64);
+        let total_shift =
+            feature_index_size_shift + model_index_size_shift + feature_state_size_shift;
+        if model_index_size_shift != stored.model_index_size_shift as u64
+            || feature_state_size_shift != stored.feature_state_size_shift as u64
+            || 1u64.checked_shl(total_shift as u32) != Some(stored.weights.len)
+        {
+            return Err(Error::InvalidArgument(
+                "The sizes of the stored weights do not match".to_owned(),
+            ));
+        }
+        Ok(DenseWeights {
+            weights: stored.weights.to_dense()?,
+            feature_index_size: stored.feature_index_size,
+            model_index_size: stored.model_index_size,
+            feature_state_size: stored.feature_state_size,
+            model_index_size_shift: stored.model_index_size_shift,
+            feature_state_size_shift: stored.feature_state_size_shift,
+        })
     }
 }
 
@@ -179,14 +219,6 @@ where
     sparse_vec.serialize(serializer)
 }
 
-fn deserialize_sparse_f32_vec<'de, D>(deserializer: D) -> std::result::Result<Vec<f32>, D::Error>
-where
-    D: Deserializer<'de>,
-{
-    let sparse_vec = SparseF32Vec::deserialize(deserializer)?;
-    Ok(sparse_vec.to_dense())
-}
-
 impl DenseWeights {
     fn convert_index(
         &self,
diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index e4e6ed1..2891112 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -139,8 +139,14 @@ impl Workspace {
 
     // TODO move to bincode or msgpack
     pub fn create_from_model(json: &[u8]) -> Result<Workspace> {
-        let r = flexbuffers::Reader::get_root(json).unwrap();
-        Ok(Workspace::deserialize(r).unwrap())
+        // The flexbuffers reader reports most damage as an error, but it panics when an offset
+        // or length stored in the data leads outside of it.
+        std::panic::catch_unwind(|| {
+            let r = flexbuffers::Reader::get_root(json).map_err(|e| e.to_string())?;
+            Workspace::deserialize(r).map_err(|e| e.to_string())
+        })
+        .unwrap_or_else(|_| Err("the data is damaged".to_owned()))
+        .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))
     }
 
     // TODO move to bincode or msgpack
-- 
2.43.0


From 0aecab25b0ff91c01876a86c053151fb35562f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:58 +0000
Subject: [PATCH 10/21] fix: accumulate metrics in double precision

The running sums of MeanSquaredError and IPS were single precision. Over long
streams every added term is rounded to the sum's precision (and beyond 2^24 the
sum stops growing), so the reported value drifts away from the metric.
---
 reductionml-core/src/metrics/ips.rs                | 6 +++---
 reductionml-core/src/metrics/mean_squared_error.rs | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/reductionml-core/src/metrics/ips.rs b/reductionml-core/src/metrics/ips.rs
index 8e786b5..3f9edae 100644
--- a/reductionml-core/src/metrics/ips.rs
+++ b/reductionml-core/src/metrics/ips.rs
@@ -4,7 +4,7 @@ use super::MetricValue;
 
 pub struct IpsMetric {
     pub examples_count: u64,
-    pub weighted_reward: f32,
+    pub weighted_reward: f64,
 }
 
 impl IpsMetric {
@@ -42,12 +42,12 @@ impl Metric for IpsMetric {
 
         let w = p_pred / p_log;
 
-        self.weighted_reward += (-1.0 * label.cost) * w;
+        self.weighted_reward += ((-1.0 * label.cost) * w) as f64;
         self.examples_count += 1;
     }
 
     fn get_value(&self) -> MetricValue {
-        MetricValue::Float(self.weighted_reward / (self.examples_count as f32))
+        MetricValue::Float((self.weighted_reward / self.examples_count as f64) as f32)
     }
 
     fn get_name(&self) -> String {
diff --git a/reductionml-core/src/metrics/mean_squared_error.rs b/reductionml-core/src/metrics/mean_squared_error.rs
index 14b8610..be930d7 100644
--- a/reductionml-core/src/metrics/mean_squared_error.rs
+++ b/reductionml-core/src/metrics/mean_squared_error.rs
@@ -3,7 +3,7 @@ use crate::{metrics::Metric, utils::AsInner, Features, ScalarPrediction, SimpleL
 use super::MetricValue;
 
 pub struct MeanSquaredErrorMetric {
-    pub value: f32,
+    pub value: f64,
     pub count: u64,
 }
 
@@ -31,12 +31,13 @@ impl Metric for MeanSquaredErrorMetric {
     ) {
         let label: &SimpleLabel = label.as_inner().unwrap();
         let pred: &ScalarPrediction = prediction.as_inner().unwrap();
-        self.value += (label.value() - pred.prediction) * (label.value() - pred.prediction);
+        let error = label.value() as f64 - pred.prediction as f64;
+        self.value += error * error;
         self.count += 1;
     }
 
     fn get_value(&self) -> MetricValue {
-        MetricValue::Float(self.value / self.count as f32)
+        MetricValue::Float((self.value / self.count as f64) as f32)
     }
 
     fn get_name(&self) -> String {
-- 
2.43.0


From f10bbbd4478f537b5ea96d0cd3363a4c1e184c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:18 +0000
Subject: [PATCH 11/21] fix: metric counts beyond 31 bits

Reporting the number of parsed features panicked once it exceeded i32::MAX and
the example number wrapped around.
---
 reductionml-core/src/metrics/example_number.rs | 2 +-
 reductionml-core/src/metrics/metric.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/metrics/example_number.rs b/reductionml-core/src/metrics/example_number.rs
index 95adbec..3281e48 100644
--- a/reductionml-core/src/metrics/example_number.rs
+++ b/reductionml-core/src/metrics/example_number.rs
@@ -32,7 +32,7 @@ impl Metric for ExampleNumberMetric {
         if self.count == 0 {
             panic!("Cannot get value of ExampleNumberMetric with no points");
         }
-        MetricValue::Int(self.count as i32 - 1)
+        MetricValue::Int(self.count as i64 - 1)
     }
 
     fn get_name(&self) -> String {
diff --git a/reductionml-core/src/metrics/metric.rs b/reductionml-core/src/metrics/metric.rs
index 47a0c96..0c0375b 100644
--- a/reductionml-core/src/metrics/metric.rs
+++ b/reductionml-core/src/metrics/metric.rs
@@ -12,7 +12,7 @@ pub trait Metric {
 pub enum MetricValue {
     Bool(bool),
     Float(f32),
-    Int(i32),
+    Int(i64),
     String(String),
 }
 
-- 
2.43.0


From 32a1df354d8e67ed79df655175a110f7f47cf1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:40 +0000
Subject: [PATCH 12/21] fix: elementwise products must stay inside the weight
 table

---
 .../src/reductions/elementwise_interaction.rs        | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 11f8136..2951c07 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -155,13 +155,15 @@ fn elementwise_multiply(
             }
         };
 
-        let idx1 = u32::from(idx1) - u32::from(base_one);
-        let idx2 = u32::from(idx2) - u32::from(base_two);
-
-        let dest_index = u32::from(composite_base) + idx1;
+        // Feature indices wrap around at the size of the weight table, and so do the offsets and the products.
+        let idx1 = FeatureHash::from(u32::from(idx1).wrapping_sub(u32::from(base_one))).mask(mask);
+        let idx2 = FeatureHash::from(u32::from(idx2).wrapping_sub(u32::from(base_two))).mask(mask);
 
         if idx1 == idx2 {
-            dest_iter.add_feature(dest_index.into(), val1 * val2);
+            let dest_index =
+                FeatureHash::from(u32::from(composite_base).wrapping_add(u32::from(idx1)))
+                    .mask(mask);
+            dest_iter.add_feature(dest_index, val1 * val2);
             cur_1 = ns_one_it.next();
             cur_2 = ns_two_it.next();
         } else if idx1 < idx2 {
-- 
2.43.0


From 838ea391ee1a9ccce2044b22c7b703d889b46546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:40 +0000
Subject: [PATCH 13/21] fix: elementwise interaction of features that lack one
 of the namespaces

---
 .../src/reductions/elementwise_interaction.rs | 45 +++++++++++++------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 2951c07..9660a9a 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -139,8 +139,13 @@ fn elementwise_multiply(
     let composite_base = FeatureHash::from(u32::from(composite_ns.hash())).mask(mask);
 
     let mut dest_iter = SparseFeaturesNamespace::new(composite_ns);
-    let mut ns_one_it = features.get_namespace(one).unwrap().iter();
-    let mut ns_two_it = features.get_namespace(two).unwrap().iter();
+    let (ns_one, ns_two) = match (features.get_namespace(one), features.get_namespace(two)) {
+        (Some(ns_one), Some(ns_two)) => (ns_one, ns_two),
+        // Without one of the namespaces there are no products.
+        _ => return (composite_ns, dest_iter),
+    };
+    let mut ns_one_it = ns_one.iter();
+    let mut ns_two_it = ns_two.iter();
     let mut cur_1 = ns_one_it.next();
     let mut cur_2 = ns_two_it.next();
     loop {
@@ -198,15 +203,19 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self
                 .regressor
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            if let Some(ns1) = ns1 {
+                sparse_feats.set_namespace(self.pair.0, ns1);
+            }
+            if let Some(ns2) = ns2 {
+                sparse_feats.set_namespace(self.pair.1, ns2);
+            }
             pred
         }
     }
@@ -235,8 +244,8 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self.regressor.predict_then_learn(
                 &mut sparse_feats.into(),
                 label,
@@ -245,8 +254,12 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            if let Some(ns1) = ns1 {
+                sparse_feats.set_namespace(self.pair.0, ns1);
+            }
+            if let Some(ns2) = ns2 {
+                sparse_feats.set_namespace(self.pair.1, ns2);
+            }
             pred
         }
     }
@@ -270,14 +283,18 @@ impl ReductionImpl for ElementwiseInteraction {
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            if let Some(ns1) = ns1 {
+                sparse_feats.set_namespace(self.pair.0, ns1);
+            }
+            if let Some(ns2) = ns2 {
+                sparse_feats.set_namespace(self.pair.1, ns2);
+            }
         }
     }
 
-- 
2.43.0


From 796f39d2d4f4febba4ba1e49989bee454c924613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:41 +0000
Subject: [PATCH 14/21] fix: learning with cbType mtr from an example without
 shared features

---
 reductionml-core/src/reductions/cb_adf.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/reductions/cb_adf.rs b/reductionml-core/src/reductions/cb_adf.rs
index 1c0fac5..4d0801d 100644
--- a/reductionml-core/src/reductions/cb_adf.rs
+++ b/reductionml-core/src/reductions/cb_adf.rs
@@ -214,7 +214,13 @@ impl ReductionImpl for CBAdfReduction {
                         shared_feats.remove(action);
                     }
                     None => {
-                        todo!()
+                        let action = cb_adf_features.actions.get_mut(cb_label.action).unwrap();
+                        self.regressor.learn(
+                            &mut action.into(),
+                            &simple_label.into(),
+                            depth_info,
+                            0.into(),
+                        );
                     }
                 }
             }
-- 
2.43.0


From 4c3b2f8e2e369e62c41d4aa1bd5e6904868f6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:41 +0000
Subject: [PATCH 15/21] fix: the weight of a simple JSON label is optional, as
 documented

---
 reductionml-core/src/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reductionml-core/src/types.rs b/reductionml-core/src/types.rs
index a7cb81a..151b6e9 100644
--- a/reductionml-core/src/types.rs
+++ b/reductionml-core/src/types.rs
@@ -78,9 +78,14 @@ pub enum PredictionType {
 #[derive(Clone, Copy, Debug, Serialize, Deserialize)]
 pub struct SimpleLabel {
     value: f32,
+    #[serde(default = "default_label_weight")]
     weight: f32,
 }
 
+fn default_label_weight() -> f32 {
+    1.0
+}
+
 impl SimpleLabel {
     pub fn new(value: f32, weight: f32) -> Self {
         SimpleLabel { value, weight }
-- 
2.43.0


From 181357116f146d1596e7f062fa5b2598dc2a1200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:41 +0000
Subject: [PATCH 16/21] fix: an empty list of features in a JSON example

---
 reductionml-core/src/parsers/json_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index b11fb4d..8271389 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -49,7 +49,8 @@ pub fn to_features(
                             }
                         }
                         Some(_) => panic!("Not a number or string"),
-                        None => todo!(),
+                        // An empty list has no features
+                        None => {}
                     },
 
                     Value::Object(contents) => {
-- 
2.43.0


From b1678047a50db1a288aac59be7a3c6a769624232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:55 +0000
Subject: [PATCH 17/21] fix: a namespace without name and features in a vw text
 example

---
 reductionml-core/src/parsers/vw_text_parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index fbe7fc2..83e3a7b 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -230,8 +230,10 @@ fn parse_namespace_inline(
     hash_seed: u32,
     num_bits: u8,
 ) -> Result<()> {
-    // Check if first char is a space or not
-    let first_char_is_space = namespace_segment.starts_with(' ');
+    // Check if first char is a space or not. Nothing at all, which is what is left of a space at the
+    // end of the line, is the anonymous namespace too.
+    let first_char_is_space =
+        namespace_segment.trim_start().is_empty() || namespace_segment.starts_with(' ');
     let mut tokens = namespace_segment.split_ascii_whitespace();
 
     let (namespace_name, namespace_value) = if first_char_is_space {
-- 
2.43.0


From b11530095c1061fc626e3d7acfac6d1f986688d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 18/21] fix: number lists in namespaces whose hash is next to
 the end of the hash range

The range of feature hashes of a JSON number list was built with an
overflowing addition, so a list in a namespace with such a hash was
empty and the parser panicked.
---
 reductionml-core/src/parsers.rs             | 2 +-
 reductionml-core/src/parsers/json_parser.rs | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/parsers.rs b/reductionml-core/src/parsers.rs
index 9850247..e8f55a8 100644
--- a/reductionml-core/src/parsers.rs
+++ b/reductionml-core/src/parsers.rs
@@ -26,7 +26,7 @@ impl<'a> ParsedFeature<'a> {
                 let name_key_hash = hash_bytes(name.as_bytes(), *namespace_hash);
                 FeatureHash::from(hash_bytes(value.as_bytes(), name_key_hash))
             }
-            ParsedFeature::Anonymous { offset } => (*namespace_hash + offset).into(),
+            ParsedFeature::Anonymous { offset } => namespace_hash.wrapping_add(*offset).into(),
         }
     }
 }
diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index 8271389..eefed2f 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -28,8 +28,10 @@ pub fn to_features(
                     Value::Str(_) => todo!(),
                     Value::Array(ar) => match ar.first() {
                         Some(Value::Number(_)) => {
-                            let it = (u32::from(ns_hash)..(u32::from(ns_hash) + ar.len() as u32))
-                                .map(|x| FeatureHash::from(x).mask(mask));
+                            let it = (0..ar.len() as u32).map(|offset| {
+                                FeatureHash::from(u32::from(ns_hash).wrapping_add(offset))
+                                    .mask(mask)
+                            });
                             ns.add_features_with_iter(
                                 it,
                                 ar.iter().map(|x| {
-- 
2.43.0


From 6dfd87c41e341d706c6b0d42e7650aa28c817b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:18 +0000
Subject: [PATCH 19/21] fix: a damaged model file can keep the command busy for
 ever

Cut at certain places, a file reads as a model with a list of up to 2^64
elements, all of which the reader visits.
---
 reductionml-core/src/workspace.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index 2891112..5eed448 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -121,6 +121,35 @@ fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) {
     }
 }
 
+const MAX_MODEL_DEPTH: usize = 500;
+
+/// Damaged data can state any length for a list, whose missing elements the flexbuffers reader
+/// makes up, and a list can contain itself. But each value of an intact model takes at least one
+/// byte of its own, so it has no more values than bytes.
+fn check_number_of_values(
+    value: &flexbuffers::Reader<&[u8]>,
+    max_depth: usize,
+    max_values: &mut usize,
+) -> std::result::Result<(), String> {
+    let value_type = value.flexbuffer_type();
+    let values = if value_type.is_map() {
+        value.get_map().map_err(|e| e.to_string())?.iter_values()
+    } else if value_type.is_vector() {
+        value.get_vector().map_err(|e| e.to_string())?.iter()
+    } else {
+        return Ok(());
+    };
+
+    for value in values {
+        if max_depth == 0 || *max_values == 0 {
+            return Err("the data is damaged".to_owned());
+        }
+        *max_values -= 1;
+        check_number_of_values(&value, max_depth - 1, max_values)?;
+    }
+    Ok(())
+}
+
 impl Workspace {
     pub fn new(config: Configuration) -> Result<Workspace> {
         let reduction_config = crate::reduction_factory::parse_config(&config.entry_reduction)?;
@@ -142,7 +171,9 @@ impl Workspace {
         // The flexbuffers reader reports most damage as an error, but it panics when an offset
         // or length stored in the data leads outside of it.
         std::panic::catch_unwind(|| {
+            let mut max_values = json.len();
             let r = flexbuffers::Reader::get_root(json).map_err(|e| e.to_string())?;
+            check_number_of_values(&r, MAX_MODEL_DEPTH, &mut max_values)?;
             Workspace::deserialize(r).map_err(|e| e.to_string())
         })
         .unwrap_or_else(|_| Err("the data is damaged".to_owned()))
-- 
2.43.0


From af5a7a33c08608e89474a6434373795931a1934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:56 +0000
Subject: [PATCH 20/21] fix: exploration probabilities when scores or
 parameters are out of range

With scores that are infinite, or a gamma that is (a negative or large
gammaExponent), SquareCB and softmax divided by or exponentiated something that
is not a number, and emitted NaN or panicked. A negative lambda made the
softmax overflow.
---
 .../src/reductions/cb_explore_adf_softmax.rs       | 14 ++++++++++++--
 .../src/reductions/cb_explore_adf_squarecb.rs      |  4 +++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
index 6bdf2ba..7ebafef 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
@@ -126,7 +126,15 @@ impl ReductionImpl for CBExploreAdfSoftmaxReduction {
             .0
             .iter()
             .enumerate()
-            .min_by(|(_, a), (_, b)| a.1.partial_cmp(&b.1).unwrap())
+            .min_by(|(_, a), (_, b)| {
+                let order = a.1.partial_cmp(&b.1).unwrap();
+                // A negative lambda prefers large scores.
+                if self.config.lambda < 0.0 {
+                    order.reverse()
+                } else {
+                    order
+                }
+            })
             .map(|(index, _)| index)
             .unwrap();
         let best_score = scores.0[best_idx].1;
@@ -134,7 +142,9 @@ impl ReductionImpl for CBExploreAdfSoftmaxReduction {
         let mut total_weight = 0.0;
 
         for (_, score) in scores.0.iter_mut() {
-            *score = (-self.config.lambda * (*score - best_score)).exp();
+            // At most zero, or not a number if the scores are out of range.
+            let exponent = (-self.config.lambda * (*score - best_score)).min(0.0);
+            *score = exponent.exp();
             total_weight += *score;
         }
         for (_, score) in scores.0.iter_mut() {
diff --git a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
index 9461895..75515fc 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
@@ -161,7 +161,9 @@ impl ReductionImpl for CBExploreAdfSquareCBReduction {
             if *action == best_action {
                 continue;
             }
-            *score = 1.0 / ((num_actions as f32) + gamma * (*score - best_score));
+            // The product is not a number if gamma or the scores are out of range.
+            let scaled_gap = (gamma * (*score - best_score)).max(0.0);
+            *score = 1.0 / ((num_actions as f32) + scaled_gap);
             total_weight += *score;
         }
 
-- 
2.43.0


From d5f80d381f5fc8b065ced284d8cf28d70e0aacb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:56 +0000
Subject: [PATCH 21/21] fix: an exploration rate outside of [0, 1] must be
 rejected

It was accepted, and then led to negative probabilities, to probabilities
above one or to a panic in every prediction.
---
 reductionml-core/src/explore.rs                      | 12 ++++++++++++
 .../src/reductions/cb_explore_adf_greedy.rs          |  2 ++
 .../src/reductions/cb_explore_adf_softmax.rs         |  3 ++-
 .../src/reductions/cb_explore_adf_squarecb.rs        |  3 ++-
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/explore.rs b/reductionml-core/src/explore.rs
index 256e955..9adf592 100644
--- a/reductionml-core/src/explore.rs
+++ b/reductionml-core/src/explore.rs
@@ -1,5 +1,17 @@
 use crate::error::Result;
 
+/// Used when creating an exploration reduction, as outside of this range the probabilities it
+/// derives from the value would not be a distribution.
+pub fn check_epsilon(name: &str, epsilon: f32) -> Result<()> {
+    if !(0.0..=1.0).contains(&epsilon) {
+        return Err(crate::error::Error::InvalidArgument(format!(
+            "{} must be in [0, 1], but is {}",
+            name, epsilon
+        )));
+    }
+    Ok(())
+}
+
 pub fn enforce_min_prob(
     uniform_epsilon: f32,
     consider_zero_valued_elements: bool,
diff --git a/reductionml-core/src/reductions/cb_explore_adf_greedy.rs b/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
index 9b079fd..4705579 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
@@ -1,4 +1,5 @@
 use crate::error::Result;
+use crate::explore::check_epsilon;
 use crate::global_config::GlobalConfig;
 
 use crate::reduction::{
@@ -69,6 +70,7 @@ impl ReductionFactory for CBExploreAdfGreedyReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfGreedyConfig>()
             .unwrap();
+        check_epsilon("epsilon", config.epsilon)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         let cb_adf: ReductionWrapper =
             create_reduction(cb_adf_config.as_ref(), global_config, num_models_above)?;
diff --git a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
index 7ebafef..c675d17 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
@@ -8,7 +8,7 @@ use crate::reduction_factory::{
     create_reduction, JsonReductionConfig, PascalCaseString, ReductionConfig, ReductionFactory,
 };
 
-use crate::explore::enforce_min_prob;
+use crate::explore::{check_epsilon, enforce_min_prob};
 use crate::{impl_default_factory_functions, types::*, ModelIndex};
 use schemars::schema::RootSchema;
 use schemars::{schema_for, JsonSchema};
@@ -78,6 +78,7 @@ impl ReductionFactory for CBExploreAdfSoftmaxReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfSoftmaxConfig>()
             .unwrap();
+        check_epsilon("uniformEpsilon", config.uniform_epsilon)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         let cb_adf: ReductionWrapper =
             create_reduction(cb_adf_config.as_ref(), global_config, num_models_above)?;
diff --git a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
index 75515fc..16a6c67 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
@@ -16,7 +16,7 @@ use serde::{Deserialize, Serialize};
 use serde_default::DefaultFromSerde;
 use serde_json::json;
 
-use crate::explore::enforce_min_prob;
+use crate::explore::{check_epsilon, enforce_min_prob};
 
 use super::{CBAdfConfig, CBType};
 
@@ -87,6 +87,7 @@ impl ReductionFactory for CBExploreAdfSquareCBReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfSquareCBConfig>()
             .unwrap();
+        check_epsilon("uniformEpsilon", config.uniform_epsilon)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         // Try checking for MTR
         if let Some(cfg) = cb_adf_config.as_any().downcast_ref::<CBAdfConfig>() {
-- 
2.43.0

