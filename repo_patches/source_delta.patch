From f390a9fe76825b4e900bbb52bd5712b3e1270f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 01/35] fix: kd-tree and ball-tree construction never ends on
 repeated rows

A leaf which would hold leafsize or more identical rows can't be split any
further, the split was retried forever.
---
 src/learning/knn/binary_tree.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/learning/knn/binary_tree.rs b/src/learning/knn/binary_tree.rs
index c9f3618..eb232a4 100644
--- a/src/learning/knn/binary_tree.rs
+++ b/src/learning/knn/binary_tree.rs
@@ -286,9 +286,14 @@ impl<B: BinarySplit> BinaryTree<B> {
             // with Data Clustered in Lower Dimensions (Maneewongvatan and Mount, 1999)"
             // ToDo: use unsafe get (v0.4.0?)
             // https://github.com/AtheMathmo/rulinalg/pull/104
-            let split = unsafe {
+            let mut split = unsafe {
                 dmin.data().get_unchecked(dim) + d / 2.0
             };
+            if split <= dmin[dim] {
+                // the midpoint is rounded to the lower edge, i.e. there is no
+                // value between the edges. separate at the upper edge
+                split = dmax[dim];
+            }
 
             // split remains
             let mut l_remains: Vec<usize> = Vec::with_capacity(remains.len());
@@ -312,7 +317,7 @@ impl<B: BinarySplit> BinaryTree<B> {
             } else if r_remains.is_empty() {
                 // all rows are in l_remains. re-split l_remains
                 remains = l_remains;
-                dmax[dim] = split;
+                dmax[dim] = if split < dmax[dim] { split } else { dmin[dim] };
             } else {
                 // new hyper-rectangle's min / max
                 let mut l_max = dmax.clone();
@@ -332,7 +337,7 @@ impl<B: BinarySplit> BinaryTree<B> {
     fn split(&self, data: &Matrix<f64>, remains: Vec<usize>,
              dmin: Vector<f64>, dmax: Vector<f64>) -> Node<B> {
 
-        if remains.len() < self.leafsize {
+        if remains.len() < self.leafsize || all_same(data, &remains) {
             Node::Leaf(Leaf::new(remains))
         } else {
 
@@ -428,6 +433,13 @@ impl<B: BinarySplit> KNearestSearch for BinaryTree<B> {
     }
 }
 
+/// Return true if the specified rows can't be separated, because all of
+/// them are the same
+fn all_same(data: &Matrix<f64>, ids: &[usize]) -> bool {
+    (0..data.cols()).all(|col| {
+        ids.iter().all(|&id| data[[id, col]] == data[[ids[0], col]])
+    })
+}
 
 /// min
 fn min(data: &Matrix<f64>) -> Vector<f64> {
-- 
2.43.0


From 361bfc120d6733e7ff3867f776614091efc7d067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 02/35] fix: tree search drops neighbours while fewer than k
 are gathered

KNearest::add returns the last gathered distance even if it holds fewer than
k elements; elements of the same leaf farther than that were skipped.
---
 src/learning/knn/binary_tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/learning/knn/binary_tree.rs b/src/learning/knn/binary_tree.rs
index eb232a4..d7cd4bc 100644
--- a/src/learning/knn/binary_tree.rs
+++ b/src/learning/knn/binary_tree.rs
@@ -413,7 +413,10 @@ impl<B: BinarySplit> KNearestSearch for BinaryTree<B> {
 
                         for (&i, d) in l.children.iter().zip(distances.into_iter()) {
                             if d < current_dist {
-                                current_dist = query.add(i, d);
+                                query.add(i, d);
+                                // the k-th distance is unbounded until
+                                // k elements have been gathered
+                                current_dist = query.dist();
                             }
                         }
                     },
-- 
2.43.0


From aaa6125d1b3b39d99e04b597067dbf6d488e6e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 03/35] fix: brute-force search panics when k exceeds the
 number of rows

Return all of the rows like the tree searches do.
---
 src/learning/knn/brute_force.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/learning/knn/brute_force.rs b/src/learning/knn/brute_force.rs
index d200c09..b937ef9 100644
--- a/src/learning/knn/brute_force.rs
+++ b/src/learning/knn/brute_force.rs
@@ -1,4 +1,6 @@
 //! Bruteforce search implementations
+use std::cmp;
+
 use linalg::{Matrix, BaseMatrix};
 use learning::error::Error;
 
@@ -52,7 +54,7 @@ impl KNearestSearch for BruteForce {
     /// Serch k-nearest items close to the point
     fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
         if let Some(ref data) = self.data {
-            let indices: Vec<usize> = (0..k).collect();
+            let indices: Vec<usize> = (0..cmp::min(k, data.rows())).collect();
             let distances = get_distances(data, point, &indices);
 
             let mut query = KNearest::new(k, indices, distances);
-- 
2.43.0


From 83711897a2e23e440ad3f914055fa314fa510706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 04/35] fix: nearest neighbour search reads out of bounds for k
 = 0 or short points

Both are now reported as errors; a point with missing columns was read with
get_unchecked, and k = 0 underflowed the index of the last neighbour.
---
 src/learning/knn/binary_tree.rs |  3 ++-
 src/learning/knn/brute_force.rs |  3 ++-
 src/learning/knn/mod.rs         | 17 +++++++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/learning/knn/binary_tree.rs b/src/learning/knn/binary_tree.rs
index d7cd4bc..80de30c 100644
--- a/src/learning/knn/binary_tree.rs
+++ b/src/learning/knn/binary_tree.rs
@@ -5,7 +5,7 @@ use std::collections::VecDeque;
 use linalg::{Matrix, BaseMatrix, Vector};
 use learning::error::Error;
 
-use super::{KNearest, KNearestSearch, get_distances, dist};
+use super::{KNearest, KNearestSearch, check_query, get_distances, dist};
 
 /// Binary tree
 #[derive(Debug)]
@@ -402,6 +402,7 @@ impl<B: BinarySplit> KNearestSearch for BinaryTree<B> {
     /// Serch k-nearest items close to the point
     fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
         if let Some(ref data) = self.data {
+            check_query(data, point, k)?;
             let (mut query, mut queue) = self.search_leaf(point, k)?;
             while !queue.is_empty() {
                 let current = queue.pop_front().unwrap();
diff --git a/src/learning/knn/brute_force.rs b/src/learning/knn/brute_force.rs
index b937ef9..48ee441 100644
--- a/src/learning/knn/brute_force.rs
+++ b/src/learning/knn/brute_force.rs
@@ -4,7 +4,7 @@ use std::cmp;
 use linalg::{Matrix, BaseMatrix};
 use learning::error::Error;
 
-use super::{KNearest, KNearestSearch, get_distances, dist};
+use super::{KNearest, KNearestSearch, check_query, get_distances, dist};
 
 /// Perform brute-force search
 #[derive(Debug)]
@@ -54,6 +54,7 @@ impl KNearestSearch for BruteForce {
     /// Serch k-nearest items close to the point
     fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
         if let Some(ref data) = self.data {
+            check_query(data, point, k)?;
             let indices: Vec<usize> = (0..cmp::min(k, data.rows())).collect();
             let distances = get_distances(data, point, &indices);
 
diff --git a/src/learning/knn/mod.rs b/src/learning/knn/mod.rs
index fe6d4c0..9cea221 100644
--- a/src/learning/knn/mod.rs
+++ b/src/learning/knn/mod.rs
@@ -133,6 +133,10 @@ impl<S: KNearestSearch> SupModel<Matrix<f64>, Vector<usize>> for KNNClassifier<S
             return Err(Error::new(ErrorKind::InvalidData,
                                   "inputs number of rows must be equal or learger than k"));
         }
+        if self.k == 0 {
+            return Err(Error::new(ErrorKind::InvalidParameters,
+                                  "the number of neighbors must be positive"));
+        }
         self.searcher.build(inputs.clone());
         self.target = Some(targets.clone());
         Ok(())
@@ -260,6 +264,19 @@ fn freq(labels: &[usize]) -> (Vector<usize>, Vector<usize>) {
     (Vector::new(uniques), Vector::new(counts))
 }
 
+/// Check that the number of neighbors and the point can be searched in the data
+fn check_query(data: &Matrix<f64>, point: &[f64], k: usize) -> Result<(), Error> {
+    if k == 0 {
+        return Err(Error::new(ErrorKind::InvalidParameters,
+                              "the number of neighbors must be positive"));
+    }
+    if point.len() != data.cols() {
+        return Err(Error::new(ErrorKind::InvalidData,
+                              "point and data must have the same number of columns"));
+    }
+    Ok(())
+}
+
 /// Return distances between given point and data specified with row ids
 fn get_distances(data: &Matrix<f64>, point: &[f64], ids: &[usize]) -> Vec<f64> {
     assert!(!ids.is_empty(), "target ids is empty");
-- 
2.43.0


From 5ca0df2b1962e3521a07e6efb730d887a2c0842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 05/35] fix: k-means centroid of an empty class becomes NaN

The mean of no rows is NaN, and NaN distances then break the assignment of all
other points. A class without data keeps its centroid.
---
 src/learning/k_means.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 398aae6..1b8907b 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -218,9 +218,17 @@ impl<InitAlg: Initializer> KMeansClassifier<InitAlg> {
             row_indexes.get_mut(c as usize).map(|v| v.push(i));
         }
 
-        for vec_i in row_indexes {
-            let mat_i = inputs.select_rows(&vec_i);
-            new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+        for (class, vec_i) in row_indexes.into_iter().enumerate() {
+            match self.centroids {
+                // No data is assigned to this class - its centroid stays.
+                Some(ref centroids) if vec_i.is_empty() => {
+                    new_centroids.extend_from_slice(centroids.row(class).raw_slice());
+                }
+                _ => {
+                    let mat_i = inputs.select_rows(&vec_i);
+                    new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+                }
+            }
         }
 
         self.centroids = Some(Matrix::new(self.k, inputs.cols(), new_centroids));
-- 
2.43.0


From cb9e8d389e41bb4dcdc2d455cb3fdc8b5080ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 06/35] fix: k-means++ panics with fewer unique points than
 clusters

Report it as invalid data, like fewer points than clusters.
---
 src/learning/k_means.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 1b8907b..ae8131d 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -357,6 +357,11 @@ impl Initializer for KPlusPlus {
                                            initialization."));
                 }
 
+                if dist.sum() <= 0.0 {
+                    return Err(Error::new(ErrorKind::InvalidData,
+                                          "There are more clusters than unique data points."));
+                }
+
                 let next_cen = sample_discretely(&dist);
                 init_centroids.extend_from_slice(inputs.row_unchecked(next_cen).raw_slice());
             }
-- 
2.43.0


From 3af904c31ee274d8cbe55bfe12210065fbf77418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 07/35] fix: k-means with no clusters panics

Report the invalid parameter.
---
 src/learning/k_means.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index ae8131d..0a614c9 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -184,7 +184,10 @@ impl<InitAlg: Initializer> KMeansClassifier<InitAlg> {
     ///
     /// Used internally within model.
     fn init_centroids(&mut self, inputs: &Matrix<f64>) -> LearningResult<()> {
-        if self.k > inputs.rows() {
+        if self.k == 0 {
+            Err(Error::new(ErrorKind::InvalidParameters,
+                           "The number of clusters must be positive."))
+        } else if self.k > inputs.rows() {
             Err(Error::new(ErrorKind::InvalidData,
                            format!("Number of clusters ({0}) exceeds number of data points \
                                     ({1}).",
-- 
2.43.0


From 91358a8989c5029a25c2ab2bd36a69792c18ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 08/35] fix: DBSCAN marks points at the border of a cluster as
 noise

Only points with min_points neighbours were labelled. Points within distance
eps of those are part of the cluster as well.
---
 src/learning/dbscan.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index e7bbdee..34508a2 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -180,6 +180,13 @@ impl DBSCAN {
         self.clusters.as_mut().map(|x| x.mut_data()[point_idx] = Some(cluster));
 
         for data_point_idx in &neighbour_pts {
+            // points within distance eps belong to the cluster, even if they
+            // do not have enough neighbours to expand it further.
+            self.clusters.as_mut().map(|x| {
+                let label = &mut x.mut_data()[*data_point_idx];
+                *label = label.or(Some(cluster));
+            });
+
             let visited = self._visited[*data_point_idx];
             if !visited {
                 self._visited[*data_point_idx] = true;
-- 
2.43.0


From d1c044288687149b1e36e3792d27e599a668d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 09/35] fix: DBSCAN predicts from the data of an earlier
 training

Training while not predictive kept the old data, which do not match the new
clusters (wrong labels or an index out of bounds).
---
 src/learning/dbscan.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index 34508a2..0b02167 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -96,9 +96,11 @@ impl UnSupModel<Matrix<f64>, Vector<Option<usize>>> for DBSCAN {
             }
         }
 
-        if self.predictive {
-            self._cluster_data = Some(inputs.clone());
-        }
+        self._cluster_data = if self.predictive {
+            Some(inputs.clone())
+        } else {
+            None
+        };
 
         Ok(())
     }
-- 
2.43.0


From 78a86bc300efbf22d96381c7c35a23671e43c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:20 +0000
Subject: [PATCH 10/35] fix: naive Bayes predicts a class without training data

The parameters of such a class are placeholders which give NaN log
probabilities; if it was the first class, it was predicted for every input.
---
 src/learning/naive_bayes.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index a36a712..e8f1078 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -45,6 +45,7 @@ use learning::{LearningResult, SupModel};
 use learning::error::{Error, ErrorKind};
 use rulinalg::utils;
 
+use std::f64;
 use std::f64::consts::PI;
 
 /// The Naive Bayes model.
@@ -139,7 +140,19 @@ impl<T: Distribution> NaiveBayes<T> {
 
         if let (&Some(ref distr), &Some(ref prior)) = (&self.distr, &self.class_prior) {
             // Get the joint log likelihood from the distribution
-            distr.joint_log_lik(inputs, prior)
+            let mut log_probs = distr.joint_log_lik(inputs, prior)?;
+
+            // Classes without any training data have no parameters and
+            // can't be the class of an input
+            for mut row in log_probs.row_iter_mut() {
+                for (log_prob, class_prior) in row.iter_mut().zip(prior.iter()) {
+                    if *class_prior == 0f64 {
+                        *log_prob = f64::NEG_INFINITY;
+                    }
+                }
+            }
+
+            Ok(log_probs)
         } else {
             Err(Error::new_untrained())
         }
-- 
2.43.0


From b1f1f831b5cded4aaaaa94027754458e44e9b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 11/35] fix: a failed naive Bayes training leaves a mixture of
 old and new parameters

Predicting afterwards used the blank new distribution with the old priors,
which panics if the number of classes differs.
---
 src/learning/naive_bayes.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index e8f1078..85651e1 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -108,8 +108,13 @@ impl<T: Distribution> NaiveBayes<T> {
 impl<T: Distribution> SupModel<Matrix<f64>, Matrix<f64>> for NaiveBayes<T> {
     /// Train the model using inputs and targets.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
-        self.distr = Some(T::from_model_params(targets.cols(), inputs.cols()));
-        self.update_params(inputs, targets)
+        // Only replace the current parameters if the training succeeds
+        let mut model = NaiveBayes::<T>::new();
+        model.distr = Some(T::from_model_params(targets.cols(), inputs.cols()));
+        model.update_params(inputs, targets)?;
+
+        *self = model;
+        Ok(())
     }
 
     /// Predict output from inputs.
-- 
2.43.0


From 2286312dcb5b01d96e0d7830c7c0b49097a70138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 12/35] fix: naive Bayes accepts fewer targets than inputs

The inputs without target were counted in the class priors only; more targets
than inputs panicked.
---
 src/learning/naive_bayes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index 85651e1..5b6fc5d 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -108,6 +108,11 @@ impl<T: Distribution> NaiveBayes<T> {
 impl<T: Distribution> SupModel<Matrix<f64>, Matrix<f64>> for NaiveBayes<T> {
     /// Train the model using inputs and targets.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
+        if inputs.rows() != targets.rows() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "inputs and targets must have the same number of rows"));
+        }
+
         // Only replace the current parameters if the training succeeds
         let mut model = NaiveBayes::<T>::new();
         model.distr = Some(T::from_model_params(targets.cols(), inputs.cols()));
-- 
2.43.0


From 497db7e154abe4df154857f23cd5682d21e04111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 13/35] fix: GMM panics on singular covariances

Return the decomposition error, like that of the inversion on the next line.
---
 src/learning/gmm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 4c7e713..630e42c 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -261,7 +261,7 @@ impl GaussianMixtureModel {
 
         if let Some(ref covars) = self.model_covars {
             for cov in covars {
-                let lup = PartialPivLu::decompose(cov.clone()).expect("Covariance could not be lup decomposed");
+                let lup = PartialPivLu::decompose(cov.clone()).map_err(Error::from)?;
                 let covar_det = lup.det();
                 // TODO: We can probably remove this inverse for a more stable solve elsewhere.
                 let covar_inv = lup.inverse().map_err(Error::from)?;
-- 
2.43.0


From 7d5b48ba46336c4f607678c5da4ef3167d855754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 14/35] fix: GMM training panics with fewer rows than
 components

Report invalid data, like k-means.
---
 src/learning/gmm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 630e42c..49234bd 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -79,6 +79,11 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for GaussianMixtureModel {
         // Initialization:
         let k = self.comp_count;
 
+        if k > inputs.rows() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Number of components exceeds number of data points."));
+        }
+
         self.model_covars = {
             let cov_mat = self.initialize_covariances(inputs, reg_value)?;
             Some(vec![cov_mat; k])
-- 
2.43.0


From 3608fc9fc36c6af4a3a9def47c93c55f0c7e7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 15/35] fix: GMM regularization shrinks with the weight of the
 component

The constant was added to the scatter matrix and then divided by the weight of
the component, instead of being added to the diagonal of the covariance as
documented (and as done for the initial covariance).
---
 src/learning/gmm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 49234bd..c031def 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -332,12 +332,13 @@ impl GaussianMixtureModel {
                 cov_mat += self.compute_cov(diff, membership_weights[[i, k]]);
             }
 
+            cov_mat /= sum_weights[k];
+
             if let CovOption::Regularized(eps) = self.cov_option {
                 cov_mat += Matrix::<f64>::identity(cov_mat.cols()) * eps;
             }
 
-            new_covs.push(cov_mat / sum_weights[k]);
-
+            new_covs.push(cov_mat);
         }
 
         self.model_means = Some(new_means);
-- 
2.43.0


From 3f75c760446dc1752e50d335577db6dacbdf3a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 16/35] fix: GMM gives NaN probabilities for points far from
 all components

All densities underflow to zero there; normalize them in log space.
---
 src/learning/gmm.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index c031def..acc46af 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -31,13 +31,14 @@
 //! println!("{:?}", post_probs.data());
 //! ```
 use linalg::{Matrix, MatrixSlice, Vector, BaseMatrix, BaseMatrixMut, Axes};
-use rulinalg::utils;
 use rulinalg::matrix::decomposition::{PartialPivLu};
 
 use learning::{LearningResult, UnSupModel};
 use learning::toolkit::rand_utils;
 use learning::error::{Error, ErrorKind};
 
+use std::f64;
+
 /// Covariance options for GMMs.
 ///
 /// - Full : The full covariance structure.
@@ -281,25 +282,29 @@ impl GaussianMixtureModel {
         // Now we compute the membership weights
         if let Some(ref means) = self.model_means {
             for i in 0..n {
-                let mut pdfs = Vec::with_capacity(self.comp_count);
+                let mut log_pdfs = Vec::with_capacity(self.comp_count);
                 let x_i = MatrixSlice::from_matrix(inputs, [i, 0], 1, inputs.cols());
 
                 for j in 0..self.comp_count {
                     let mu_j = MatrixSlice::from_matrix(means, [j, 0], 1, means.cols());
                     let diff = x_i - mu_j;
 
-                    let pdf = (&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0]
-                        .exp() / cov_sqrt_dets[j];
-                    pdfs.push(pdf);
+                    let log_pdf = (&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0]
+                        - cov_sqrt_dets[j].ln();
+                    log_pdfs.push(self.mix_weights[j].ln() + log_pdf);
                 }
 
-                let weighted_pdf_sum = utils::dot(&pdfs, self.mix_weights.data());
+                // The densities far from all components underflow, so we
+                // scale them relative to the largest
+                let log_max = log_pdfs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
+                let pdfs: Vec<f64> = log_pdfs.iter().map(|x| (x - log_max).exp()).collect();
+                let weighted_pdf_sum = pdfs.iter().sum::<f64>();
 
-                for (idx, pdf) in pdfs.iter().enumerate() {
-                    member_weights_data.push(self.mix_weights[idx] * pdf / (weighted_pdf_sum));
+                for pdf in pdfs {
+                    member_weights_data.push(pdf / weighted_pdf_sum);
                 }
 
-                log_lik += weighted_pdf_sum.ln();
+                log_lik += log_max + weighted_pdf_sum.ln();
             }
         }
 
-- 
2.43.0


From 6685491ca13162a70a720e8cfe1c6c30989e726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 17/35] fix: training a trained GMM starts from the mixture
 weights of the old data

Means and covariances are initialized anew, the weights (and log likelihood)
were kept from the previous training instead of the specified prior weights.
---
 src/learning/gmm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index acc46af..1d980ae 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -59,6 +59,7 @@ pub enum CovOption {
 #[derive(Debug)]
 pub struct GaussianMixtureModel {
     comp_count: usize,
+    prior_weights: Vector<f64>,
     mix_weights: Vector<f64>,
     model_means: Option<Matrix<f64>>,
     model_covars: Option<Vec<Matrix<f64>>>,
@@ -93,6 +94,8 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for GaussianMixtureModel {
         let random_rows: Vec<usize> =
             rand_utils::reservoir_sample(&(0..inputs.rows()).collect::<Vec<usize>>(), k);
         self.model_means = Some(inputs.select_rows(&random_rows));
+        self.mix_weights = self.prior_weights.clone();
+        self.log_lik = 0f64;
 
         for _ in 0..self.max_iters {
             let log_lik_0 = self.log_lik;
@@ -137,6 +140,7 @@ impl GaussianMixtureModel {
     pub fn new(k: usize) -> GaussianMixtureModel {
         GaussianMixtureModel {
             comp_count: k,
+            prior_weights: Vector::ones(k) / (k as f64),
             mix_weights: Vector::ones(k) / (k as f64),
             model_means: None,
             model_covars: None,
@@ -179,6 +183,7 @@ impl GaussianMixtureModel {
 
             Ok(GaussianMixtureModel {
                 comp_count: k,
+                prior_weights: normalized_weights.clone(),
                 mix_weights: normalized_weights,
                 model_means: None,
                 model_covars: None,
-- 
2.43.0


From 106425f84ba858e299aeb85f3bde45a2ecba92ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 18/35] fix: optimizers stop at once when the first cost is
 zero

---
 src/learning/optim/grad_desc.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/learning/optim/grad_desc.rs b/src/learning/optim/grad_desc.rs
index 1e11487..9f9201a 100644
--- a/src/learning/optim/grad_desc.rs
+++ b/src/learning/optim/grad_desc.rs
@@ -15,6 +15,8 @@ use rulinalg::utils;
 
 use learning::toolkit::rand_utils;
 
+use std::f64;
+
 const LEARNING_EPS: f64 = 1e-20;
 
 /// Batch Gradient Descent algorithm
@@ -75,8 +77,8 @@ impl<M: Optimizable> OptimAlgorithm<M> for GradientDesc {
 
         // Create the initial optimal parameters
         let mut optimizing_val = Vector::new(start.to_vec());
-        // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        // The cost at the start of each iteration (none yet)
+        let mut start_iter_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // Compute the cost and gradient for the current parameters
@@ -170,8 +172,8 @@ impl<M> OptimAlgorithm<M> for StochasticGD
 
         // Set up the indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
-        // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        // The cost at the start of each iteration (none yet)
+        let mut start_iter_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // The cost at the end of each stochastic gd pass
@@ -269,8 +271,8 @@ impl<M: Optimizable<Inputs = Matrix<f64>, Targets = Matrix<f64>>> OptimAlgorithm
 
         // Set up the indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
-        // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        // The cost at the start of each iteration (none yet)
+        let mut start_iter_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // The cost at the end of each stochastic gd pass
@@ -384,7 +386,7 @@ impl<M> OptimAlgorithm<M> for RMSProp
         // Set up indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost from the previous iteration
-        let mut prev_cost = 0f64;
+        let mut prev_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // The cost at end of each pass
-- 
2.43.0


From b8fbf31d098f16f3ab8bc03f149e0bf991a2a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:26 +0000
Subject: [PATCH 19/35] fix: AdaGrad without adaptive constant turns parameters
 without gradient into NaN

---
 src/learning/optim/grad_desc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/learning/optim/grad_desc.rs b/src/learning/optim/grad_desc.rs
index 9f9201a..8ac7b97 100644
--- a/src/learning/optim/grad_desc.rs
+++ b/src/learning/optim/grad_desc.rs
@@ -289,7 +289,10 @@ impl<M: Optimizable<Inputs = Matrix<f64>, Targets = Matrix<f64>>> OptimAlgorithm
 
                 // Compute the change in gradient
                 utils::in_place_vec_bin_op(&mut vec_data, ada_s.data(), |x, &y| {
-                    *x = self.alpha * (*x / (self.tau + (y).sqrt()))
+                    // No gradient so far (0 / 0 if there is no adaptive constant)
+                    if y > 0f64 || self.tau > 0f64 {
+                        *x = self.alpha * (*x / (self.tau + (y).sqrt()))
+                    }
                 });
                 // Update the parameters
                 optimizing_val = &optimizing_val - Vector::new(vec_data);
-- 
2.43.0


From 322e01cfe338827c171e8b755d6826f714c8d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:42 +0000
Subject: [PATCH 20/35] fix: GLM training panics on singular data

---
 src/learning/glm.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index aa69a7e..607ea79 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -117,10 +117,7 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
 
             let x_t_w = &x_t * w;
 
-            let new_beta = (&x_t_w * &full_inputs)
-                .inverse()
-                .expect("Could not compute input data inverse.") *
-                           x_t_w * z;
+            let new_beta = (&x_t_w * &full_inputs).inverse()? * x_t_w * z;
             let diff = (beta - &new_beta).apply(&|x| x.abs()).sum();
             beta = new_beta;
 
-- 
2.43.0


From f34e126c48c7bf62e743d1c904cfb5e1c886fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:29 +0000
Subject: [PATCH 21/35] fix: GLM fits do not reach the maximum likelihood

---
 src/learning/glm.rs | 55 ++++++++++-----------------------------------
 1 file changed, 12 insertions(+), 43 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index 607ea79..af46712 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -100,7 +100,8 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
 
         // Construct initial estimate for mu
         let mut mu = Vector::new(self.criterion.initialize_mu(targets.data()));
-        let mut z = mu.clone();
+        // The linear predictor belonging to mu
+        let mut eta = self.criterion.apply_link_func(mu.clone());
         let mut beta: Vector<f64> = Vector::new(vec![0f64; inputs.cols() + 1]);
 
         let ones = Matrix::<f64>::ones(inputs.rows(), 1);
@@ -113,7 +114,7 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
             let y_bar_data = self.criterion.compute_y_bar(targets.data(), mu.data());
 
             let w = Matrix::from_diag(&w_diag);
-            let y_bar = Vector::new(y_bar_data);
+            let z = Vector::new(y_bar_data) + &eta;
 
             let x_t_w = &x_t * w;
 
@@ -125,10 +126,9 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
                 break;
             }
 
-            // Update z and mu
-            let fitted = &full_inputs * &beta;
-            z = y_bar + &fitted;
-            mu = self.criterion.apply_link_inv(fitted);
+            // Update eta and mu
+            eta = &full_inputs * &beta;
+            mu = self.criterion.apply_link_inv(eta.clone());
         }
 
         self.parameters = Some(beta);
@@ -310,19 +310,8 @@ impl Criterion for Bernoulli {
     }
 
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
-        let mut mu_data = Vec::with_capacity(y.len());
-
-        for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
-        }
-
-        mu_data
+        // Keeps away from the ends of [0, 1], where the link is infinite
+        y.iter().map(|y_val| (y_val + 0.5) / 2f64).collect()
     }
 
     fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
@@ -379,19 +368,8 @@ impl Criterion for Binomial {
     }
 
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
-        let mut mu_data = Vec::with_capacity(y.len());
-
-        for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
-        }
-
-        mu_data
+        // Keeps away from the ends of [0, 1], where the link is infinite
+        y.iter().map(|y_val| (y_val + 0.5) / 2f64).collect()
     }
 
     fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
@@ -453,17 +431,8 @@ impl Criterion for Poisson {
     }
 
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
-        let mut mu_data = Vec::with_capacity(y.len());
-
-        for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else {
-                *y_val
-            });
-        }
-
-        mu_data
+        // Keeps away from zero, where the link is infinite
+        y.iter().map(|y_val| y_val + 0.1).collect()
     }
 
     fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
-- 
2.43.0


From 996ff8f5159468269c3ab05780a65ca71b77d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 22/35] fix: GLM training stops after one step if that gives
 zero coefficients

---
 src/learning/glm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index af46712..26ca4f8 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -41,6 +41,8 @@ use linalg::{Matrix, BaseMatrix};
 use learning::{LearningResult, SupModel};
 use learning::error::{Error, ErrorKind};
 
+use std::f64;
+
 /// The Generalized Linear Model
 ///
 /// The model is generic over a Criterion
@@ -102,7 +104,8 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
         let mut mu = Vector::new(self.criterion.initialize_mu(targets.data()));
         // The linear predictor belonging to mu
         let mut eta = self.criterion.apply_link_func(mu.clone());
-        let mut beta: Vector<f64> = Vector::new(vec![0f64; inputs.cols() + 1]);
+        // No estimate yet, so that the first one never counts as converged
+        let mut beta: Vector<f64> = Vector::new(vec![f64::INFINITY; inputs.cols() + 1]);
 
         let ones = Matrix::<f64>::ones(inputs.rows(), 1);
         let full_inputs = ones.hcat(inputs);
-- 
2.43.0


From 3981144a9f7a335eaf5c6fca60e41692e628632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:33 +0000
Subject: [PATCH 23/35] fix: training a network without layers panics

---
 src/learning/nnet/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/learning/nnet/mod.rs b/src/learning/nnet/mod.rs
index 5a7fe8d..391535d 100644
--- a/src/learning/nnet/mod.rs
+++ b/src/learning/nnet/mod.rs
@@ -361,7 +361,7 @@ impl<T: Criterion> BaseNeuralNet<T> {
             params.push(slice);
             index += layer.num_params();
         }
-        let output = activations.last().unwrap();
+        let output = activations.last().unwrap_or(inputs);
 
         // Backward propagation
         
-- 
2.43.0


From 8c535bfc2f5eb39e61b9964a58a502b157caae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 24/35] fix: SVM training does not take the Pegasos steps

---
 src/learning/svm.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/learning/svm.rs b/src/learning/svm.rs
index 0ff3f07..1f3f9a0 100644
--- a/src/learning/svm.rs
+++ b/src/learning/svm.rs
@@ -151,12 +151,14 @@ impl<K: Kernel> SupModel<Matrix<f64>, Vector<f64>> for SVM<K> {
         let ones = Matrix::<f64>::ones(inputs.rows(), 1);
         let full_inputs = ones.hcat(inputs);
 
-        for t in 0..self.optim_iters {
+        for t in 1..self.optim_iters + 1 {
             let i = rng.gen_range(0, n);
             let row_i = full_inputs.select_rows(&[i]);
             let sum = full_inputs.row_iter()
-                .fold(0f64, |sum, row| sum + self.ker.kernel(row_i.data(), row.raw_slice())) *
-                      targets[i] / (self.lambda * (t as f64));
+                .zip(alpha.iter().zip(targets.iter()))
+                .fold(0f64, |sum, (row, (a, y))| {
+                    sum + a * y * self.ker.kernel(row_i.data(), row.raw_slice())
+                }) * targets[i] / (self.lambda * (t as f64));
 
             if sum < 1f64 {
                 alpha[i] += 1f64;
-- 
2.43.0


From 767c2f510c48ef8fa22006a855d032262da4f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 25/35] fix: SVM accepts a wrong number of targets

---
 src/learning/svm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/svm.rs b/src/learning/svm.rs
index 1f3f9a0..ca0eff9 100644
--- a/src/learning/svm.rs
+++ b/src/learning/svm.rs
@@ -144,6 +144,11 @@ impl<K: Kernel> SupModel<Matrix<f64>, Vector<f64>> for SVM<K> {
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Vector<f64>) -> LearningResult<()> {
         let n = inputs.rows();
 
+        if targets.size() != n {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Number of inputs and targets must be the same."));
+        }
+
         let mut rng = rand::thread_rng();
 
         let mut alpha = vec![0f64; n];
-- 
2.43.0


From a4313551e3a37767f992eb58c802cf7073dfb2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:41 +0000
Subject: [PATCH 26/35] fix: PCA predicts with transposed components after
 retraining on fewer columns

---
 src/learning/pca.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 743b9b7..8767c5d 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -182,9 +182,9 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             inputs.clone()
         };
         let (_, _, mut v) = data.svd().unwrap();
-        if inputs.cols() > inputs.rows() {
+        self.inv = inputs.cols() > inputs.rows();
+        if self.inv {
             v = v.transpose();
-            self.inv = true;
         }
 
         self.components = match self.n {
-- 
2.43.0


From 66810c9bde1c58db82511e79ce4ec034c529893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:49 +0000
Subject: [PATCH 27/35] fix: PCA of data with more columns than rows keeps
 features instead of components

---
 src/learning/pca.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 8767c5d..9cf4439 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -170,6 +170,10 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
                     return Err(Error::new(ErrorKind::InvalidData,
                                "Input data must have equal or larger number of columns than n"));
                 }
+                if n > inputs.rows() {
+                    return Err(Error::new(ErrorKind::InvalidData,
+                               "Input data must have equal or larger number of rows than n"));
+                }
             }
         }
 
@@ -190,7 +194,7 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
         self.components = match self.n {
             Some(c) => {
                 let slicer: Vec<usize> = (0..c).collect();
-                Some(v.select_cols(&slicer))
+                Some(if self.inv { v.select_rows(&slicer) } else { v.select_cols(&slicer) })
             },
             None => Some(v)
         };
-- 
2.43.0


From 6cf43a8118973863204e794ed661a80571474655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 28/35] fix: DBSCAN predicts from rows with another number of
 columns

---
 src/learning/dbscan.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index 0b02167..bc6db54 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -109,6 +109,11 @@ impl UnSupModel<Matrix<f64>, Vector<Option<usize>>> for DBSCAN {
         if self.predictive {
             if let (&Some(ref cluster_data), &Some(ref clusters)) = (&self._cluster_data,
                                                                      &self.clusters) {
+                if inputs.cols() != cluster_data.cols() {
+                    return Err(Error::new(ErrorKind::InvalidData,
+                                          "Input data must have the same number of columns as training data."));
+                }
+
                 let mut classes = Vec::with_capacity(inputs.rows());
 
                 for input_point in inputs.row_iter() {
-- 
2.43.0


From c70a840c158da158fc64ba47816dfc8dc5c57f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 29/35] fix: k-means++ falls back to the last candidate when
 rounding leaves the drawn value beyond the running total

---
 src/learning/k_means.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 0a614c9..c172829 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -385,13 +385,19 @@ fn sample_discretely(unnorm_dist: &Vector<f64>) -> usize {
     let rand = thread_rng().gen_range(0.0f64, sum);
 
     let mut tempsum = 0.0;
+    let mut last_positive = None;
     for (i, p) in unnorm_dist.data().iter().enumerate() {
         tempsum += *p;
 
         if rand < tempsum {
             return i;
         }
+
+        if *p > 0.0 {
+            last_positive = Some(i);
+        }
     }
 
-    panic!("No random value was sampled! There may be more clusters than unique data points.");
+    // Rounding can leave the running total slightly below the drawn value
+    last_positive.expect("No random value was sampled! There may be more clusters than unique data points.")
 }
-- 
2.43.0


From d009354ae4fd7ba665ae3a97c8a1b499f9290c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 30/35] fix: DBSCAN expands clusters without recursion

Every point of a cluster added a stack frame, so that training on a cluster
of a few thousand connected points overflowed the stack and aborted.
---
 src/learning/dbscan.rs | 46 ++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index bc6db54..6206efd 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -186,28 +186,40 @@ impl DBSCAN {
 
         self.clusters.as_mut().map(|x| x.mut_data()[point_idx] = Some(cluster));
 
-        for data_point_idx in &neighbour_pts {
-            // points within distance eps belong to the cluster, even if they
-            // do not have enough neighbours to expand it further.
-            self.clusters.as_mut().map(|x| {
-                let label = &mut x.mut_data()[*data_point_idx];
-                *label = label.or(Some(cluster));
-            });
-
-            let visited = self._visited[*data_point_idx];
-            if !visited {
-                self._visited[*data_point_idx] = true;
-                let data_point_row = unsafe { inputs.row_unchecked(*data_point_idx) };
-                let sub_neighbours = self.region_query(data_point_row, inputs);
-
-                if sub_neighbours.len() >= self.min_points {
-                    self.expand_cluster(inputs, *data_point_idx, sub_neighbours, cluster);
+        let mut neighbour_pts = neighbour_pts;
+        let mut pending = Vec::new();
+
+        loop {
+            for data_point_idx in neighbour_pts {
+                // points within distance eps belong to the cluster, even if they
+                // do not have enough neighbours to expand it further.
+                self.clusters.as_mut().map(|x| {
+                    let label = &mut x.mut_data()[data_point_idx];
+                    *label = label.or(Some(cluster));
+                });
+
+                if !self._visited[data_point_idx] {
+                    self._visited[data_point_idx] = true;
+                    pending.push(data_point_idx);
                 }
             }
+
+            // Expand the visited points one at a time: a recursive call for each
+            // would need a stack as deep as the cluster is large.
+            let data_point_row = match pending.pop() {
+                Some(idx) => unsafe { inputs.row_unchecked(idx) },
+                None => break,
+            };
+            let sub_neighbours = self.region_query(data_point_row, inputs);
+
+            neighbour_pts = if sub_neighbours.len() >= self.min_points {
+                sub_neighbours
+            } else {
+                Vec::new()
+            };
         }
     }
 
-
     fn region_query(&self, point: Row<f64>, inputs: &Matrix<f64>) -> Vec<usize> {
         debug_assert!(point.cols() == inputs.cols(),
                       "point must be of same dimension as inputs");
-- 
2.43.0


From 535dd1e3a46bd535254b5a3dc091c26d53cdefea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 31/35] fix: Gaussian mixtures use log determinants, which do
 not overflow for many columns

---
 src/learning/gmm.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 1d980ae..2115c67 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -30,7 +30,7 @@
 //! // Probabilities that each point comes from each Gaussian.
 //! println!("{:?}", post_probs.data());
 //! ```
-use linalg::{Matrix, MatrixSlice, Vector, BaseMatrix, BaseMatrixMut, Axes};
+use linalg::{Matrix, MatrixSlice, Vector, BaseMatrix, BaseMatrixMut, Axes, Decomposition};
 use rulinalg::matrix::decomposition::{PartialPivLu};
 
 use learning::{LearningResult, UnSupModel};
@@ -266,18 +266,19 @@ impl GaussianMixtureModel {
 
         let mut member_weights_data = Vec::with_capacity(n * self.comp_count);
 
-        // We compute the determinants and inverses now
-        let mut cov_sqrt_dets = Vec::with_capacity(self.comp_count);
+        // We compute the determinants and inverses now. The determinants are
+        // products over all columns and may overflow, so we take their logs
+        let mut cov_log_dets = Vec::with_capacity(self.comp_count);
         let mut cov_invs = Vec::with_capacity(self.comp_count);
 
         if let Some(ref covars) = self.model_covars {
             for cov in covars {
                 let lup = PartialPivLu::decompose(cov.clone()).map_err(Error::from)?;
-                let covar_det = lup.det();
                 // TODO: We can probably remove this inverse for a more stable solve elsewhere.
                 let covar_inv = lup.inverse().map_err(Error::from)?;
 
-                cov_sqrt_dets.push(covar_det.sqrt());
+                let upper = lup.unpack().u;
+                cov_log_dets.push((0..cov.rows()).map(|d| upper[[d, d]].abs().ln()).sum::<f64>());
                 cov_invs.push(covar_inv);
             }
         }
@@ -295,7 +296,7 @@ impl GaussianMixtureModel {
                     let diff = x_i - mu_j;
 
                     let log_pdf = (&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0]
-                        - cov_sqrt_dets[j].ln();
+                        - cov_log_dets[j] / 2f64;
                     log_pdfs.push(self.mix_weights[j].ln() + log_pdf);
                 }
 
-- 
2.43.0


From ca8ecab52e877747627f14201155ddc6d8505600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 32/35] fix: Gaussian mixtures reject mixture weights that are
 all zero

---
 src/learning/gmm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 2115c67..3ddc700 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -179,6 +179,11 @@ impl GaussianMixtureModel {
             Err(Error::new(ErrorKind::InvalidParameters, "Mixture weights must have only non-negative entries."))
         } else {
             let sum = mixture_weights.sum();
+
+            if !(sum > 0f64) {
+                return Err(Error::new(ErrorKind::InvalidParameters, "Mixture weights must not all be zero."));
+            }
+
             let normalized_weights = mixture_weights / sum;
 
             Ok(GaussianMixtureModel {
-- 
2.43.0


From e5b5e0dfbde16ce980ac160126ecbf1cdf2c05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 33/35] fix: cross entropy and its gradient are not NaN for
 certain, correct outputs

---
 src/learning/toolkit/cost_fn.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/learning/toolkit/cost_fn.rs b/src/learning/toolkit/cost_fn.rs
index b59328f..794a32d 100644
--- a/src/learning/toolkit/cost_fn.rs
+++ b/src/learning/toolkit/cost_fn.rs
@@ -11,6 +11,8 @@
 use linalg::{Matrix, BaseMatrix, BaseMatrixMut};
 use linalg::Vector;
 
+use std::f64;
+
 /// Trait for cost functions in models.
 pub trait CostFunc<T> {
     /// The cost function.
@@ -74,7 +76,7 @@ impl CostFunc<Matrix<f64>> for CrossEntropyError {
     }
 
     fn grad_cost(outputs: &Matrix<f64>, targets: &Matrix<f64>) -> Matrix<f64> {
-        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))))
+        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64)).apply(&not_zero)))
     }
 }
 
@@ -92,11 +94,18 @@ impl CostFunc<Vector<f64>> for CrossEntropyError {
     }
 
     fn grad_cost(outputs: &Vector<f64>, targets: &Vector<f64>) -> Vector<f64> {
-        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))))
+        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64)).apply(&not_zero)))
     }
 }
 
 /// Logarithm for applying within cost function.
+///
+/// Finite at zero, so that a certain output adds no cost for the other class.
 fn ln(x: f64) -> f64 {
-    x.ln()
+    not_zero(x).ln()
+}
+
+/// The smallest positive number in place of zero.
+fn not_zero(x: f64) -> f64 {
+    if x == 0f64 { f64::MIN_POSITIVE } else { x }
 }
-- 
2.43.0


From 6c9d41944b97df04d68822bb640cde1bfc970f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 34/35] fix: networks trained by stochastic descent accept more
 targets than rows

---
 src/learning/nnet/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/learning/nnet/mod.rs b/src/learning/nnet/mod.rs
index 391535d..c2d8f66 100644
--- a/src/learning/nnet/mod.rs
+++ b/src/learning/nnet/mod.rs
@@ -45,7 +45,7 @@
 
 pub mod net_layer;
 
-use linalg::{Matrix, MatrixSlice};
+use linalg::{Matrix, MatrixSlice, BaseMatrix};
 use rulinalg::utils;
 
 use learning::{LearningResult, SupModel};
@@ -87,6 +87,11 @@ impl<T, A> SupModel<Matrix<f64>, Matrix<f64>> for NeuralNet<T, A>
 
     /// Train the model using gradient optimization and back propagation.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
+        if inputs.rows() != targets.rows() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Number of inputs and targets must be the same."));
+        }
+
         let optimal_w = self.alg.optimize(&self.base, &self.base.weights, inputs, targets);
         self.base.weights = optimal_w;
         Ok(())
-- 
2.43.0


From a786b70aa02c13b62f99829ad7ae86a8ca8329f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 35/35] fix: linear algebra errors lose their message

---
 src/learning/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/learning/error.rs b/src/learning/error.rs
index c04ff34..bde4de1 100644
--- a/src/learning/error.rs
+++ b/src/learning/error.rs
@@ -59,7 +59,7 @@ impl Error {
 
 impl From<rulinalg::error::Error> for Error {
     fn from(e: rulinalg::error::Error) -> Error {
-        Error::new(ErrorKind::LinearAlgebra, <rulinalg::error::Error as error::Error>::description(&e))
+        Error::new(ErrorKind::LinearAlgebra, e.to_string())
     }
 }
 
-- 
2.43.0

