From 990c4a3f5cd11c4fec0efb2ca40ef1772e3dc993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 01/53] Add guarded hooks (MLRL_VERIF_HOOKS) for observing the
 training process

---
 .../common/learner_classification_common.hpp  |  3 ++
 .../mlrl/common/learner_regression_common.hpp |  3 ++
 .../include/mlrl/common/util/verif_hooks.hpp  | 42 +++++++++++++++++++
 .../rule_induction/rule_induction_common.hpp  |  5 +++
 .../rule_induction_top_down_beam_search.cpp   |  2 +
 .../rule_induction_top_down_greedy.cpp        |  2 +
 .../rule_model_assemblage_sequential.cpp      |  5 +++
 7 files changed, 62 insertions(+)
 create mode 100644 cpp/subprojects/common/include/mlrl/common/util/verif_hooks.hpp

diff --git a/cpp/subprojects/common/include/mlrl/common/learner_classification_common.hpp b/cpp/subprojects/common/include/mlrl/common/learner_classification_common.hpp
index f4eac07..0004a68 100644
--- a/cpp/subprojects/common/include/mlrl/common/learner_classification_common.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/learner_classification_common.hpp
@@ -5,6 +5,7 @@
 
 #include "mlrl/common/learner_classification.hpp"
 #include "mlrl/common/learner_common.hpp"
+#include "mlrl/common/util/verif_hooks.hpp"
 
 #include <memory>
 #include <utility>
@@ -50,6 +51,7 @@ class AbstractClassificationRuleLearner : virtual public IClassificationRuleLear
             std::unique_ptr<IPartitionSampling> partitionSamplingPtr =
               labelMatrix.createPartitionSampling(*partitionSamplingFactoryPtr);
             IPartition& partition = partitionSamplingPtr->partition();
+            MLRL_VERIF_HOOK(onPartition(partition, featureMatrix.getNumExamples()));
 
             // Create post-optimization and model builder...
             std::unique_ptr<IModelBuilderFactory> modelBuilderFactoryPtr = configurator_.createModelBuilderFactory();
@@ -97,6 +99,7 @@ class AbstractClassificationRuleLearner : virtual public IClassificationRuleLear
             // Post-optimize the model...
             postOptimizationPtr->optimizeModel(partition, *outputSamplingPtr, *instanceSamplingPtr, *featureSamplingPtr,
                                                *featureSpacePtr);
+            MLRL_VERIF_HOOK(onTrainingFinished(statisticsProviderPtr->get()));
 
             // Fit model for the calibration of marginal probabilities...
             std::unique_ptr<IMarginalProbabilityCalibratorFactory> marginalProbabilityCalibratorFactoryPtr =
diff --git a/cpp/subprojects/common/include/mlrl/common/learner_regression_common.hpp b/cpp/subprojects/common/include/mlrl/common/learner_regression_common.hpp
index fca165b..b50762c 100644
--- a/cpp/subprojects/common/include/mlrl/common/learner_regression_common.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/learner_regression_common.hpp
@@ -5,6 +5,7 @@
 
 #include "mlrl/common/learner_common.hpp"
 #include "mlrl/common/learner_regression.hpp"
+#include "mlrl/common/util/verif_hooks.hpp"
 
 #include <memory>
 #include <utility>
@@ -48,6 +49,7 @@ class AbstractRegressionRuleLearner : virtual public IRegressionRuleLearner {
             std::unique_ptr<IPartitionSampling> partitionSamplingPtr =
               regressionMatrix.createPartitionSampling(*partitionSamplingFactoryPtr);
             IPartition& partition = partitionSamplingPtr->partition();
+            MLRL_VERIF_HOOK(onPartition(partition, featureMatrix.getNumExamples()));
 
             // Create post-optimization and model builder...
             std::unique_ptr<IModelBuilderFactory> modelBuilderFactoryPtr = configurator_.createModelBuilderFactory();
@@ -95,6 +97,7 @@ class AbstractRegressionRuleLearner : virtual public IRegressionRuleLearner {
             // Post-optimize the model...
             postOptimizationPtr->optimizeModel(partition, *outputSamplingPtr, *instanceSamplingPtr, *featureSamplingPtr,
                                                *featureSpacePtr);
+            MLRL_VERIF_HOOK(onTrainingFinished(statisticsProviderPtr->get()));
 
             return std::make_unique<TrainingResult>(regressionMatrix.getNumOutputs(), modelBuilder.buildModel(),
                                                     createNoOutputSpaceInfo(), createNoProbabilityCalibrationModel(),
diff --git a/cpp/subprojects/common/include/mlrl/common/util/verif_hooks.hpp b/cpp/subprojects/common/include/mlrl/common/util/verif_hooks.hpp
new file mode 100644
index 0000000..9aadd8e
--- /dev/null
+++ b/cpp/subprojects/common/include/mlrl/common/util/verif_hooks.hpp
@@ -0,0 +1,42 @@
+/*
+ * Hooks that allow external tools to observe the training process. They are disabled by default and expand to nothing,
+ * unless the macro `MLRL_VERIF_HOOKS` is defined. If it is defined, the functions declared below must be provided by
+ * the tool.
+ */
+#pragma once
+
+#ifdef MLRL_VERIF_HOOKS
+
+    #include "mlrl/common/data/types.hpp"
+
+class IIndexVector;
+class IPartition;
+class IStatistics;
+class IWeightVector;
+struct Condition;
+
+namespace verif {
+
+    void onPartition(const IPartition& partition, uint32 numExamples);
+
+    void onStoppingTest(const IStatistics& statistics, uint32 numRules, bool stop, uint32 numUsedRules);
+
+    void onInduceRule(const IIndexVector& outputIndices, const IWeightVector& weights, uint32 numExamples);
+
+    void onSampleFeatures(const IIndexVector& featureIndices);
+
+    void onRefine(const Condition& condition);
+
+    void onRuleInduced(bool success);
+
+    void onTrainingFinished(const IStatistics& statistics);
+
+}
+
+    #define MLRL_VERIF_HOOK(call) verif::call
+
+#else
+
+    #define MLRL_VERIF_HOOK(call)
+
+#endif
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
index 0be83e5..7d033c9 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
@@ -6,6 +6,7 @@
 #include "mlrl/common/indices/index_vector_complete.hpp"
 #include "mlrl/common/rule_induction/rule_induction.hpp"
 #include "mlrl/common/rule_refinement/score_processor.hpp"
+#include "mlrl/common/util/verif_hooks.hpp"
 
 #include <memory>
 #include <utility>
@@ -103,6 +104,8 @@ class AbstractRuleInduction : public IRuleInduction {
         bool induceRule(IFeatureSpace& featureSpace, const IIndexVector& outputIndices, const IWeightVector& weights,
                         IPartition& partition, IFeatureSampling& featureSampling,
                         IModelBuilder& modelBuilder) const override final {
+            MLRL_VERIF_HOOK(onInduceRule(outputIndices, weights,
+                                         featureSpace.getStatisticsProvider().get().getNumStatistics()));
             std::unique_ptr<ConditionList> conditionListPtr;
             std::unique_ptr<IEvaluatedPrediction> headPtr;
             std::unique_ptr<IFeatureSubspace> featureSubspacePtr =
@@ -134,8 +137,10 @@ class AbstractRuleInduction : public IRuleInduction {
 
                 // Add the induced rule to the model...
                 modelBuilder.addRule(conditionListPtr, headPtr);
+                MLRL_VERIF_HOOK(onRuleInduced(true));
                 return true;
             } else {
+                MLRL_VERIF_HOOK(onRuleInduced(false));
                 // No rule could be induced, because no useful condition could be found. This might be the case, if all
                 // examples have the same values for the considered features.
                 return false;
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
index a911369..1c3f26e 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
@@ -175,6 +175,7 @@ class Beam final {
                 if (entry.outputIndices) {
                     // Sample features...
                     const IIndexVector& featureIndices = featureSampling.sample();
+                    MLRL_VERIF_HOOK(onSampleFeatures(featureIndices));
 
                     // Search for refinements of the existing beam entry...
                     FixedRefinementComparator refinementComparator(ruleCompareFunction, beamWidth, minQuality);
@@ -325,6 +326,7 @@ class BeamSearchTopDownRuleInduction final : public AbstractRuleInduction {
 
             // Sample features...
             const IIndexVector& sampledFeatureIndices = featureSampling.sample();
+            MLRL_VERIF_HOOK(onSampleFeatures(sampledFeatureIndices));
 
             // Search for the best refinements using a single condition...
             FixedRefinementComparator refinementComparator(ruleCompareFunction_, beamWidth_);
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
index d23912e..7dbd776 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
@@ -74,6 +74,7 @@ class GreedyTopDownRuleInduction final : public AbstractRuleInduction {
             while (foundRefinement && (maxConditions_ == 0 || conditionListPtr->getNumConditions() < maxConditions_)) {
                 // Sample features...
                 const IIndexVector& sampledFeatureIndices = featureSampling.sample();
+                MLRL_VERIF_HOOK(onSampleFeatures(sampledFeatureIndices));
 
                 // Search for the best refinement...
                 foundRefinement =
@@ -87,6 +88,7 @@ class GreedyTopDownRuleInduction final : public AbstractRuleInduction {
                     bestRefinement.headPtr->sort();
 
                     // Filter the current subset of thresholds by applying the best refinement that has been found...
+                    MLRL_VERIF_HOOK(onRefine(bestRefinement));
                     featureSubspacePtr->filterSubspace(bestRefinement);
 
                     // Add the new condition...
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp b/cpp/subprojects/common/src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp
index 3729652..65c6302 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp
@@ -1,5 +1,7 @@
 #include "mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.hpp"
 
+#include "mlrl/common/util/verif_hooks.hpp"
+
 /**
  * Allows to sequentially induce several rules, optionally starting with a default rule, that are added to a rule-based
  * model.
@@ -50,6 +52,9 @@ class SequentialRuleModelAssemblage final : public IRuleModelAssemblage {
                 IStoppingCriterion::Result stoppingCriterionResult =
                   stoppingCriterionPtr->test(statisticsProvider.get(), numRules);
 
+                MLRL_VERIF_HOOK(onStoppingTest(statisticsProvider.get(), numRules, stoppingCriterionResult.stop,
+                                               stoppingCriterionResult.numUsedRules));
+
                 if (stoppingCriterionResult.numUsedRules != 0) {
                     numUsedRules = stoppingCriterionResult.numUsedRules;
                 }
-- 
2.43.0


From a9768fa4c98929c595c3433db788c80ebdc4f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:27 +0000
Subject: [PATCH 02/53] fix: copy the number of NOMINAL_NEQ conditions when
 copying a ConditionList

---
 cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
index a016116..4a0af53 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
@@ -7,7 +7,7 @@ ConditionList::ConditionList(const ConditionList& conditionList)
       numConditionsPerComparator_(
         {conditionList.numConditionsPerComparator_[0], conditionList.numConditionsPerComparator_[1],
          conditionList.numConditionsPerComparator_[2], conditionList.numConditionsPerComparator_[3],
-         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[4]}) {}
+         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[5]}) {}
 
 ConditionList::const_iterator ConditionList::cbegin() const {
     return vector_.cbegin();
-- 
2.43.0


From 093f7529d2425387cb4084f40af2f8a39ba5be6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:45 +0000
Subject: [PATCH 03/53] fix: do not let missing values of ordinal or nominal
 features satisfy conditions at prediction time

---
 .../src/mlrl/common/model/body_conjunctive.cpp       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp b/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
index 441136a..3154240 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
@@ -1,5 +1,7 @@
 #include "mlrl/common/model/body_conjunctive.hpp"
 
+#include <cmath>
+
 template<typename Threshold, typename Compare>
 ConjunctiveBody::ConditionVector<Threshold, Compare>::ConditionVector(uint32 numConditions)
     : IterableIndexedVectorDecorator<IndexedVectorDecorator<AllocatedVector<uint32>, AllocatedVector<Threshold>>>(
@@ -16,9 +18,10 @@ bool ConjunctiveBody::ConditionVector<Threshold, Compare>::covers(View<const flo
     for (uint32 i = 0; i < numConditions; i++) {
         uint32 featureIndex = featureIndexIterator[i];
         Threshold threshold = thresholdIterator[i];
-        Threshold featureValue = (Threshold) begin[featureIndex];
+        float32 featureValue = begin[featureIndex];
 
-        if (!compare_(featureValue, threshold)) {
+        // Missing values do not satisfy any condition...
+        if (std::isnan(featureValue) || !compare_((Threshold) featureValue, threshold)) {
             return false;
         }
     }
@@ -40,9 +43,10 @@ bool ConjunctiveBody::ConditionVector<Threshold, Compare>::covers(View<uint32>::
     for (uint32 i = 0; i < numConditions; i++) {
         uint32 featureIndex = featureIndexIterator[i];
         Threshold threshold = thresholdIterator[i];
-        Threshold featureValue = (Threshold) (tmpArray2[featureIndex] == n ? tmpArray1[featureIndex] : sparseValue);
+        float32 featureValue = tmpArray2[featureIndex] == n ? tmpArray1[featureIndex] : sparseValue;
 
-        if (!compare_(featureValue, threshold)) {
+        // Missing values do not satisfy any condition...
+        if (std::isnan(featureValue) || !compare_((Threshold) featureValue, threshold)) {
             return false;
         }
     }
-- 
2.43.0


From cc58e981c4fd1f91dd17a6764bf4c1f5ebc418ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:45 +0000
Subject: [PATCH 04/53] fix: use the index of the first thread when predicting
 without multi-threading support

---
 .../include/mlrl/common/prediction/predictor_common.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
index c06a6cc..0b4e398 100644
--- a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
@@ -81,7 +81,7 @@ class PredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
             }
@@ -165,7 +165,7 @@ class BinarySparsePredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 numDenseElements +=
                   delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
-- 
2.43.0


From 380e9af95b2055d49ec86554ee1badae7b753fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 05/53] fix: allow to specify the indices of nominal features
 without those of ordinal features and vice versa

---
 python/subprojects/common/mlrl/common/rule_learners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 40c55f4..d3fd38a 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -286,7 +286,7 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
             return EqualFeatureInfo.create_ordinal()
         if num_nominal_features == num_features:
             return EqualFeatureInfo.create_nominal()
-        return MixedFeatureInfo(num_features, ordinal_feature_indices, nominal_feature_indices)
+        return MixedFeatureInfo(num_features, ordinal_feature_indices or [], nominal_feature_indices or [])
 
     def _create_column_wise_feature_matrix(self, x, **kwargs) -> ColumnWiseFeatureMatrix:
         """
-- 
2.43.0


From 27bf1187e928fa2afc900c66075b49f6f34994ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:26 +0000
Subject: [PATCH 06/53] fix: preserve explicitly stored zeros when converting
 sparse matrices with a non-zero sparse value into dense ones

---
 python/subprojects/common/mlrl/common/arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/arrays.py b/python/subprojects/common/mlrl/common/arrays.py
index 7b1fc9b..4fa7642 100644
--- a/python/subprojects/common/mlrl/common/arrays.py
+++ b/python/subprojects/common/mlrl/common/arrays.py
@@ -144,7 +144,8 @@ def enforce_dense(array, order: str, dtype, sparse_value=0) -> np.ndarray:
     if is_sparse(array):
         if sparse_value != 0:
             dense_array = np.full(shape=array.shape, fill_value=sparse_value, dtype=dtype, order=order)
-            dense_array[array.nonzero()] = 0
+            coo_array = array.tocoo()
+            dense_array[coo_array.row, coo_array.col] = 0
             dense_array += array
             return np.asarray(dense_array, dtype=dtype, order=order)
         return np.require(array.toarray(order=order), dtype=dtype)
-- 
2.43.0


From ff86bf295f12c7cdd8186350157054af3034d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:49 +0000
Subject: [PATCH 07/53] fix: sample the only remaining feature if feature
 sampling is applied to a single feature

---
 .../common/sampling/feature_sampling_without_replacement.cpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
index f48d904..7fdc930 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
@@ -151,8 +151,10 @@ std::unique_ptr<IFeatureSamplingFactory> FeatureSamplingWithoutReplacementConfig
 
     if (sampleSize_ > 0) {
         numSamples = util::calculateBoundedFraction(numRemainingFeatures, sampleSize_, minSamples_, maxSamples_);
-    } else {
+    } else if (numRemainingFeatures > 1) {
         numSamples = static_cast<uint32>(log2(numRemainingFeatures - 1) + 1);
+    } else {
+        numSamples = numRemainingFeatures;
     }
 
     return std::make_unique<FeatureSamplingWithoutReplacementFactory>(rngConfig_.get().createRNGFactory(), numFeatures,
-- 
2.43.0


From ddb7a8881725c395c16baefefe477fdcf8e9bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:06 +0000
Subject: [PATCH 08/53] fix: support sparse feature, label and regression
 matrices without any explicitly stored elements

---
 .../common/mlrl/common/cython/feature_matrix.pyx          | 8 ++++++--
 .../common/mlrl/common/cython/label_matrix.pyx            | 3 ++-
 .../common/mlrl/common/cython/regression_matrix.pyx       | 4 +++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx b/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
index a2f0ac0..906b445 100644
--- a/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
@@ -91,7 +91,9 @@ cdef class CscFeatureMatrix(ColumnWiseFeatureMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.feature_matrix_ptr = createCscFeatureMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef const float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.feature_matrix_ptr = createCscFeatureMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                          num_features, sparse_value)
 
     cdef IFeatureMatrix* get_feature_matrix_ptr(self):
@@ -156,7 +158,9 @@ cdef class CsrFeatureMatrix(RowWiseFeatureMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.feature_matrix_ptr = createCsrFeatureMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef const float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.feature_matrix_ptr = createCsrFeatureMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                          num_features, sparse_value)
 
     cdef IFeatureMatrix* get_feature_matrix_ptr(self):
diff --git a/python/subprojects/common/mlrl/common/cython/label_matrix.pyx b/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
index 1afda7a..b35d044 100644
--- a/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
@@ -56,7 +56,8 @@ cdef class CsrLabelMatrix(RowWiseLabelMatrix):
         """
         self.indices = indices
         self.indptr = indptr
-        self.label_matrix_ptr = createCsrLabelMatrix(&indices[0], &indptr[0], num_examples, num_labels)
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.label_matrix_ptr = createCsrLabelMatrix(indices_ptr, &indptr[0], num_examples, num_labels)
 
     cdef IOutputMatrix* get_output_matrix_ptr(self):
         return self.label_matrix_ptr.get()
diff --git a/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx b/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
index f2db3c1..34be58f 100644
--- a/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
@@ -57,7 +57,9 @@ cdef class CsrRegressionMatrix(RowWiseRegressionMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.regression_matrix_ptr = createCsrRegressionMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.regression_matrix_ptr = createCsrRegressionMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                                num_outputs)
 
     cdef IOutputMatrix* get_output_matrix_ptr(self):
-- 
2.43.0


From f216acaa9045df76e5856dfef2049b8af6a89ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:17 +0000
Subject: [PATCH 09/53] fix: sort the outputs that are sampled without
 replacement, as it is expected by the statistics

---
 .../common/sampling/output_sampling_without_replacement.cpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/output_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/output_sampling_without_replacement.cpp
index 8ff21b8..a6bd215 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/output_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/output_sampling_without_replacement.cpp
@@ -6,6 +6,8 @@
 #include "mlrl/common/util/math.hpp"
 #include "mlrl/common/util/validation.hpp"
 
+#include <algorithm>
+
 /**
  * Allows to select a subset of the available outputs without replacement.
  */
@@ -32,6 +34,7 @@ class OutputSamplingWithoutReplacement final : public IOutputSampling {
         const IIndexVector& sample() override {
             sampleIndicesWithoutReplacement<IndexIterator>(indexVector_.begin(), indexVector_.getNumElements(),
                                                            IndexIterator(numOutputs_), numOutputs_, *rngPtr_);
+            std::sort(indexVector_.begin(), indexVector_.end());
             return indexVector_;
         }
 };
-- 
2.43.0


From a24b8313485132944b90121fa67c4303ee8a3953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:06 +0000
Subject: [PATCH 10/53] fix: do not consider examples with missing values as
 covered when searching for refinements

---
 .../common/input/feature_based_search.hpp     | 54 +++++++++++++++----
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
index bc8ea93..a84d7c7 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
@@ -45,6 +45,30 @@ static inline std::unique_ptr<IResettableStatisticsSubset> createStatisticsSubse
     return statisticsSubsetPtr;
 }
 
+/**
+ * Returns the number of examples with non-zero weights that may be covered by conditions on a feature, i.e., the number
+ * of examples with non-zero weights for which the feature's value is not missing.
+ *
+ * @param statisticsSubset              A reference to an object of type `IResettableStatisticsSubset`
+ * @param missingFeatureVector          A reference to an object of type `MissingFeatureVector` that stores the indices
+ *                                      of the examples for which the feature's value is missing
+ * @param numExamplesWithNonZeroWeights The total number of examples with non-zero weights
+ * @return                              The number of examples with non-zero weights and non-missing feature values
+ */
+static inline uint32 getNumNonMissingExamples(const IResettableStatisticsSubset& statisticsSubset,
+                                              const MissingFeatureVector& missingFeatureVector,
+                                              uint32 numExamplesWithNonZeroWeights) {
+    uint32 numNonMissing = numExamplesWithNonZeroWeights;
+
+    for (auto it = missingFeatureVector.indices_cbegin(); it != missingFeatureVector.indices_cend(); it++) {
+        if (statisticsSubset.hasNonZeroWeight(*it)) {
+            numNonMissing--;
+        }
+    }
+
+    return numNonMissing;
+}
+
 /**
  * Conducts a search for the best refinement of an existing rule that can be created from a `NumericalFeatureVector`.
  *
@@ -76,8 +100,10 @@ static inline void searchForNumericalRefinement(const NumericalFeatureVector& fe
                                                 uint32 minCoverage, Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForNumericalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator,
-                                           numExamplesWithNonZeroWeights, minCoverage, refinement);
+    uint32 numNonMissing =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForNumericalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numNonMissing, minCoverage,
+                                           refinement);
 }
 
 /**
@@ -111,8 +137,10 @@ static inline void searchForNominalRefinement(const NominalFeatureVector& featur
                                               Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForNominalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                         minCoverage, refinement);
+    uint32 numNonMissing =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForNominalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numNonMissing, minCoverage,
+                                         refinement);
 }
 
 /**
@@ -145,8 +173,10 @@ static inline void searchForBinaryRefinement(const BinaryFeatureVector& featureV
                                              Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForBinaryRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                        minCoverage, refinement);
+    uint32 numNonMissing =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForBinaryRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numNonMissing, minCoverage,
+                                        refinement);
 }
 
 /**
@@ -180,8 +210,10 @@ static inline void searchForOrdinalRefinement(const OrdinalFeatureVector& featur
                                               Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForOrdinalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                         minCoverage, refinement);
+    uint32 numNonMissing =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForOrdinalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numNonMissing, minCoverage,
+                                         refinement);
 }
 
 /**
@@ -215,6 +247,8 @@ static inline void searchForBinnedRefinement(const BinnedFeatureVector& featureV
                                              Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForBinnedRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                        minCoverage, refinement);
+    uint32 numNonMissing =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForBinnedRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numNonMissing, minCoverage,
+                                        refinement);
 }
-- 
2.43.0


From e988796d43ac8654770b251dc03f689954f8c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:20 +0000
Subject: [PATCH 11/53] fix: ignore refinements that do not affect the coverage
 of rules in beam search to ensure termination

---
 .../rule_induction_top_down_beam_search.cpp   | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
index 1c3f26e..e7c8868 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
@@ -37,6 +37,11 @@ struct BeamEntry final {
          * potential refinements of the rule may predict.
          */
         const IIndexVector* outputIndices;
+
+        /**
+         * The number of training examples that are covered by the rule.
+         */
+        uint32 numCovered;
 };
 
 static inline void initializeEntry(BeamEntry& entry, Refinement& refinement,
@@ -48,6 +53,7 @@ static inline void initializeEntry(BeamEntry& entry, Refinement& refinement,
     entry.conditionListPtr->addCondition(refinement);
     entry.headPtr = std::move(refinement.headPtr);
     entry.outputIndices = keepHead ? entry.headPtr.get() : &outputIndices;
+    entry.numCovered = refinement.numCovered;
 }
 
 static inline void copyEntry(BeamEntry& newEntry, BeamEntry& oldEntry, Refinement& refinement,
@@ -58,6 +64,7 @@ static inline void copyEntry(BeamEntry& newEntry, BeamEntry& oldEntry, Refinemen
     newEntry.conditionListPtr = std::move(conditionListPtr);
     newEntry.conditionListPtr->addCondition(refinement);
     newEntry.headPtr = std::move(refinement.headPtr);
+    newEntry.numCovered = refinement.numCovered;
 
     if (refinement.numCovered <= minCoverage) {
         newEntry.outputIndices = nullptr;
@@ -71,6 +78,7 @@ static inline void copyEntry(BeamEntry& newEntry, BeamEntry& oldEntry) {
     newEntry.conditionListPtr = std::move(oldEntry.conditionListPtr);
     newEntry.headPtr = std::move(oldEntry.headPtr);
     newEntry.outputIndices = nullptr;
+    newEntry.numCovered = oldEntry.numCovered;
 }
 
 static inline const Quality& updateOrder(RuleCompareFunction ruleCompareFunction,
@@ -179,13 +187,21 @@ class Beam final {
 
                     // Search for refinements of the existing beam entry...
                     FixedRefinementComparator refinementComparator(ruleCompareFunction, beamWidth, minQuality);
-                    foundRefinement = ruleRefinement.findRefinement(refinementComparator, *entry.featureSubspacePtr,
-                                                                    featureIndices, *entry.outputIndices, minCoverage);
+                    ruleRefinement.findRefinement(refinementComparator, *entry.featureSubspacePtr, featureIndices,
+                                                  *entry.outputIndices, minCoverage);
+
+                    // Ignore refinements that cover the same examples as the existing beam entry...
+                    FixedRefinementComparator::iterator iterator = refinementComparator.begin();
+                    uint32 numCovered = entry.numCovered;
+                    uint32 numRefinements = static_cast<uint32>(
+                      std::remove_if(iterator, refinementComparator.end(),
+                                     [=](const Refinement& refinement) {
+                        return refinement.numCovered >= numCovered;
+                    }) - iterator);
+                    foundRefinement = numRefinements > 0;
 
                     if (foundRefinement) {
                         result = true;
-                        uint32 numRefinements = refinementComparator.getNumElements();
-                        FixedRefinementComparator::iterator iterator = refinementComparator.begin();
                         uint32 i = 0;
 
                         // Include all refinements, except for the last one, in the new beam. The corresponding
-- 
2.43.0


From 57000b44d1d36678061be45edcdc19479ed52f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:09 +0000
Subject: [PATCH 12/53] fix: do not exceed the memory that is allocated for the
 thresholds of binned features

---
 .../mlrl/common/input/feature_binning_equal_frequency.cpp    | 3 ++-
 .../src/mlrl/common/input/feature_binning_equal_width.cpp    | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp
index ec1c5fc..9652725 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp
@@ -12,7 +12,8 @@ static inline std::unique_ptr<IFeatureVector> createFeatureVectorInternally(
 
     if (numBins > 1) {
         uint32 numElements = numericalFeatureVector.numElements;
-        AllocatedBinnedFeatureVector binnedFeatureVector(numBins, numElements);
+        // An additional bin might be required for storing sparse values...
+        AllocatedBinnedFeatureVector binnedFeatureVector(numBins + 1, numElements);
         AllocatedBinnedFeatureVector::threshold_iterator thresholdIterator = binnedFeatureVector.thresholds_begin();
         AllocatedBinnedFeatureVector::index_iterator indexIterator = binnedFeatureVector.indices;
         AllocatedBinnedFeatureVector::index_iterator indptrIterator = binnedFeatureVector.indptr;
diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
index d02a231..29c8dac 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
@@ -78,7 +78,10 @@ static inline std::unique_ptr<IFeatureVector> createFeatureVectorInternally(
             uint32 numExamplesInCurrentBin = numExamplesPerBin[i];
 
             if (i == sparseBinIndex || numExamplesInCurrentBin > 0) {
-                thresholdIterator[numBins] = min + ((numBins + 1) * width);
+                if (numBins < numWidths - 1) {
+                    thresholdIterator[numBins] = min + ((numBins + 1) * width);
+                }
+
                 indptrIterator[numBins] = numIndices;
 
                 if (i != sparseBinIndex) {
-- 
2.43.0


From 29341190ec7835e1ba1247f67f3208c5360a7e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:23 +0000
Subject: [PATCH 13/53] fix: do not access non-existing thresholds of binned
 features

---
 .../src/mlrl/common/input/feature_based_search_binned.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
index 27118ba..0e40e71 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
@@ -146,7 +146,7 @@ static inline void searchForBinnedRefinementInternally(const BinnedFeatureVector
     // examples...
     uint32 numUncovered = numExamplesWithNonZeroWeights - numCovered;
 
-    if (numUncovered >= minCoverage) {
+    if (numCovered > 0 && numUncovered >= minCoverage) {
         // Determine the best prediction for examples covered by the condition...
         const IScoreVector& scoreVector = statisticsSubset.calculateScores();
 
-- 
2.43.0


From 649f13f21ab205ebe6b2364e470d7be4b2d1a6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:19 +0000
Subject: [PATCH 14/53] fix: correct the direction of the L1 regularization
 when calculating output-wise scores

---
 .../rule_evaluation_decomposable_common.hpp                | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
index 8c93f25..96243f6 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
@@ -37,8 +37,11 @@ namespace boosting {
     static inline constexpr float64 calculateOutputWiseScore(float64 gradient, float64 hessian,
                                                              float64 l1RegularizationWeight,
                                                              float64 l2RegularizationWeight) {
-        return util::divideOrZero(-gradient + getL1RegularizationWeight(gradient, l1RegularizationWeight),
-                                  hessian + l2RegularizationWeight);
+        float64 l1Weight = getL1RegularizationWeight(gradient, l1RegularizationWeight);
+        // If the absolute gradient does not exceed the L1 regularization weight, zero is the optimal score...
+        float64 numerator =
+          gradient > l1RegularizationWeight || gradient < -l1RegularizationWeight ? -gradient - l1Weight : 0;
+        return util::divideOrZero(numerator, hessian + l2RegularizationWeight);
     }
 
     /**
-- 
2.43.0


From 19861d98b9c25388183a2a0aef344561aaa9b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:46 +0000
Subject: [PATCH 15/53] fix: allocate enough memory for the bins that are
 created for labels with negative and positive criteria

---
 .../src/mlrl/boosting/binning/label_binning_equal_width.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
index c3e29f4..43c2412 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
@@ -38,7 +38,8 @@ namespace boosting {
                 : binRatio_(binRatio), minBins_(minBins), maxBins_(maxBins) {}
 
             uint32 getMaxBins(uint32 numLabels) const override {
-                return util::calculateBoundedFraction(numLabels, binRatio_, minBins_, maxBins_) + 1;
+                // Bins are created for the labels with negative and positive criteria, respectively...
+                return 2 * util::calculateBoundedFraction(numLabels, binRatio_, minBins_, maxBins_);
             }
 
             LabelInfo getLabelInfo(View<float64>::const_iterator criteria, uint32 numCriteria) const override {
-- 
2.43.0


From 7a455f6ec8ad10d21e63a6e89e2d8d20ce323515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:06 +0000
Subject: [PATCH 16/53] fix: use the number of labels when allocating confusion
 matrices

---
 .../seco/src/mlrl/seco/statistics/statistics_common.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
index be77d58..b8506c1 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
@@ -560,7 +560,7 @@ namespace seco {
       const BinarySparseArrayVector& majorityLabelVector, const RuleEvaluationFactory& ruleEvaluationFactory,
       const WeightVector& weights, const IndexVector& outputIndices) {
         std::unique_ptr<ConfusionMatrixVector> totalSumVectorPtr =
-          std::make_unique<ConfusionMatrixVector>(labelMatrix.numRows, true);
+          std::make_unique<ConfusionMatrixVector>(labelMatrix.numCols, true);
         return std::make_unique<StatisticsSubset<LabelMatrix, CoverageMatrix, ConfusionMatrixVector,
                                                  RuleEvaluationFactory, WeightVector, IndexVector>>(
           std::move(totalSumVectorPtr), labelMatrix, coverageMatrix, majorityLabelVector, ruleEvaluationFactory,
-- 
2.43.0


From 81816c253ad8e41d0846a5b4986144806180fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:40 +0000
Subject: [PATCH 17/53] fix: sort the heads of rules that are part of a beam,
 as it is expected by the statistics

---
 .../rule_induction/rule_induction_top_down_beam_search.cpp      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
index e7c8868..8e3cd81 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
@@ -52,6 +52,7 @@ static inline void initializeEntry(BeamEntry& entry, Refinement& refinement,
     entry.conditionListPtr = std::make_unique<ConditionList>();
     entry.conditionListPtr->addCondition(refinement);
     entry.headPtr = std::move(refinement.headPtr);
+    entry.headPtr->sort();
     entry.outputIndices = keepHead ? entry.headPtr.get() : &outputIndices;
     entry.numCovered = refinement.numCovered;
 }
@@ -64,6 +65,7 @@ static inline void copyEntry(BeamEntry& newEntry, BeamEntry& oldEntry, Refinemen
     newEntry.conditionListPtr = std::move(conditionListPtr);
     newEntry.conditionListPtr->addCondition(refinement);
     newEntry.headPtr = std::move(refinement.headPtr);
+    newEntry.headPtr->sort();
     newEntry.numCovered = refinement.numCovered;
 
     if (refinement.numCovered <= minCoverage) {
-- 
2.43.0


From 14cabed569aaac4472d4ea4816c9ccdbc8adf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:38 +0000
Subject: [PATCH 18/53] fix: initialize the parameter that specifies whether
 unused rules should be removed by pre-pruning

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index 67ac4cf..c803a22 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -173,8 +173,9 @@ class PrePruningFactory final : public IStoppingCriterionFactory {
                           bool useHoldoutSet, bool removeUnusedRules, uint32 minRules, uint32 updateInterval,
                           uint32 stopInterval, uint32 numPast, uint32 numCurrent, float64 minImprovement)
             : aggregationFunctionFactoryPtr_(std::move(aggregationFunctionFactoryPtr)), useHoldoutSet_(useHoldoutSet),
-              minRules_(minRules), updateInterval_(updateInterval), stopInterval_(stopInterval), numPast_(numPast),
-              numCurrent_(numCurrent), minImprovement_(minImprovement) {}
+              removeUnusedRules_(removeUnusedRules), minRules_(minRules), updateInterval_(updateInterval),
+              stopInterval_(stopInterval), numPast_(numPast), numCurrent_(numCurrent),
+              minImprovement_(minImprovement) {}
 
         std::unique_ptr<IStoppingCriterion> create(const SinglePartition& partition) const override {
             std::unique_ptr<IAggregationFunction> aggregationFunctionPtr = aggregationFunctionFactoryPtr_->create();
-- 
2.43.0


From f50a17a98f742b23d9a7ff0dc8e220e5c52fd1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:57 +0000
Subject: [PATCH 19/53] fix: correct the lift for heads with more labels than
 the peak label and do not exceed the memory of the peak lift function

---
 .../src/mlrl/seco/lift_functions/lift_function_peak.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp b/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
index d1daa49..677c8d8 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
@@ -18,7 +18,7 @@ namespace seco {
                 normalization = ((float64) numLabels - 1) / ((float64) peakLabel - 1);
             } else {
                 normalization =
-                  ((float64) numLabels - (float64) totalLabels) / ((float64) totalLabels - (float64) peakLabel);
+                  ((float64) totalLabels - (float64) numLabels) / ((float64) totalLabels - (float64) peakLabel);
             }
 
             return 1 + pow(normalization, exponent) * (maxLift - 1);
@@ -100,10 +100,10 @@ namespace seco {
              */
             PeakLiftFunctionFactory(uint32 numLabels, uint32 peakLabel, float64 maxLift, float64 curvature)
                 : numLabels_(numLabels), peakLabel_(peakLabel), maxLift_(maxLift), curvature_(curvature),
-                  maxLiftsAfterPeak_(numLabels - peakLabel) {
-                for (uint32 i = 0; i < numLabels - peakLabel; i++) {
+                  maxLiftsAfterPeak_(numLabels - peakLabel + 1) {
+                for (uint32 i = 0; i <= numLabels - peakLabel; i++) {
                     maxLiftsAfterPeak_[i] =
-                      calculateLiftInternally(i + peakLabel, numLabels, peakLabel, maxLift, curvature);
+                      calculateLiftInternally(i + peakLabel, numLabels, peakLabel, maxLift, 1.0 / curvature);
                 }
             }
 
-- 
2.43.0


From f2cfff5a4d3c687a749aec4b2fe60ce04ff0dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:58 +0000
Subject: [PATCH 20/53] fix: consider only the relevant labels of an example
 when accessing the rows of sparse label matrices

---
 .../include/mlrl/common/data/view_matrix_csr_binary.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
index a624fe3..f17f087 100644
--- a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
@@ -56,7 +56,7 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `const_row` that has been created
          */
         const_row operator[](uint32 row) const {
-            return Vector<const uint32>(indices_cbegin(row), Matrix::numCols);
+            return Vector<const uint32>(indices_cbegin(row), indices_cend(row) - indices_cbegin(row));
         }
 
         /**
@@ -66,7 +66,7 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `row` that has been created
          */
         row operator[](uint32 row) {
-            return Vector<uint32>(indices_begin(row), Matrix::numCols);
+            return Vector<uint32>(indices_begin(row), indices_end(row) - indices_begin(row));
         }
 
         /**
-- 
2.43.0


From 173e293ad850bf83952a098c8dc1ed6f488d776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:12 +0000
Subject: [PATCH 21/53] fix: do not access non-existing bins of isotonic
 calibration models and do not divide by zero if there are no sparse scores

---
 .../prediction/probability_calibration_isotonic.cpp  |  4 +++-
 .../prediction/probability_calibration_isotonic.cpp  | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp
index fa3fde7..f4a11d4 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp
@@ -5,6 +5,7 @@
 #include "mlrl/common/iterator/iterator_forward_non_zero_index.hpp"
 #include "mlrl/common/iterator/iterator_forward_sparse_binary.hpp"
 #include "mlrl/common/prediction/probability_calibration_no.hpp"
+#include "mlrl/common/util/math.hpp"
 
 #include <algorithm>
 
@@ -137,7 +138,8 @@ namespace boosting {
         for (uint32 i = 0; i < numLabels; i++) {
             IsotonicProbabilityCalibrationModel::row bins = calibrationModel[i];
             Tuple<float64>& firstBin = bins[0];
-            firstBin.second = (float64) numSparseRelevantPerLabel[i] / (float64) numSparsePerLabel[i];
+            firstBin.second =
+              util::divideOrZero((float64) numSparseRelevantPerLabel[i], (float64) numSparsePerLabel[i]);
         }
     }
 
diff --git a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
index 87542fe..732074d 100644
--- a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
@@ -102,6 +102,11 @@ static inline void aggregateNonIncreasingBins(ListOfLists<Tuple<float64>>::row b
 }
 
 static inline float64 calibrateProbability(ListOfLists<Tuple<float64>>::const_row bins, float64 probability) {
+    // Without any bins, probabilities cannot be calibrated...
+    if (bins.empty()) {
+        return probability;
+    }
+
     // Find the bins that impose a lower and upper bound on the probability...
     ListOfLists<Tuple<float64>>::value_const_iterator begin = bins.cbegin();
     ListOfLists<Tuple<float64>>::value_const_iterator end = bins.cend();
@@ -140,8 +145,11 @@ void IsotonicProbabilityCalibrationModel::fit() {
 
     for (uint32 i = 0; i < numLists; i++) {
         row bins = (*this)[i];
-        sortByThresholdsAndEliminateDuplicates(bins);
-        aggregateNonIncreasingBins(bins);
+
+        if (!bins.empty()) {
+            sortByThresholdsAndEliminateDuplicates(bins);
+            aggregateNonIncreasingBins(bins);
+        }
     }
 }
 
-- 
2.43.0


From 38834479f1cdbd55dc05168e81e449f3f2e208a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 22/53] fix: aggregate the probabilities of the last bins with
 equal thresholds when fitting isotonic calibration models

---
 .../mlrl/common/prediction/probability_calibration_isotonic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
index 732074d..e664a8a 100644
--- a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
@@ -29,7 +29,7 @@ static inline void sortByThresholdsAndEliminateDuplicates(ListOfLists<Tuple<floa
         }
     }
 
-    bins[n] = bins[numBins - 1];
+    bins[n] = previousBin;
     n++;
     bins.resize(n);
 }
-- 
2.43.0


From 6d97a12af022c94878fb88c0c1748d91882811b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:07 +0000
Subject: [PATCH 23/53] fix: use the actual regression scores when evaluating
 the non-decomposable squared error loss

---
 .../boosting/losses/loss_non_decomposable_squared_error.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_non_decomposable_squared_error.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_non_decomposable_squared_error.cpp
index 7d404ac..7719e86 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_non_decomposable_squared_error.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_non_decomposable_squared_error.cpp
@@ -130,8 +130,8 @@ namespace boosting {
 
         for (uint32 i = 0; i < numOutputs; i++) {
             float64 predictedScore = scoreIterator[i];
-            bool trueLabel = *groundTruthIterator;
-            float64 expectedScore = trueLabel ? 1 : -1;
+            typename std::iterator_traits<GroundTruthIterator>::value_type groundTruth = *groundTruthIterator;
+            float64 expectedScore = groundTruthConversionFunction(groundTruth);
             float64 difference = (expectedScore - predictedScore);
             sumOfSquares += (difference * difference);
             groundTruthIterator++;
-- 
2.43.0


From 0cda87bfb10741a1cd6ba858d04e9856b39e1cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:46 +0000
Subject: [PATCH 24/53] fix: keep the objects that are accessed by incremental
 predictors alive

---
 .../common/mlrl/common/rule_learners.py       | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index d3fd38a..aa0b835 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -117,14 +117,17 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         functionality.
         """
 
-        def __init__(self, feature_matrix: RowWiseFeatureMatrix, incremental_predictor):
+        def __init__(self, feature_matrix: RowWiseFeatureMatrix, incremental_predictor, *references):
             """
             :param feature_matrix:          A `RowWiseFeatureMatrix` that stores the feature values of the query
                                             examples
             :param incremental_predictor:   The incremental predictor to be used for obtaining predictions
+            :param references:              The objects, e.g., the model, that are accessed by the incremental predictor
+                                            and therefore must be kept alive
             """
             self.feature_matrix = feature_matrix
             self.incremental_predictor = incremental_predictor
+            self.references = references
 
         def has_next(self) -> bool:
             """
@@ -149,13 +152,15 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         Allows to obtain predictions from a `RuleLearner` incrementally.
         """
 
-        def __init__(self, feature_matrix: RowWiseFeatureMatrix, model: RuleModel, max_rules: int, predictor):
+        def __init__(self, feature_matrix: RowWiseFeatureMatrix, model: RuleModel, max_rules: int, predictor,
+                     *references):
             """
             :param feature_matrix:  A `RowWiseFeatureMatrix` that stores the feature values of the query examples
             :param model:           The model to be used for obtaining predictions
             :param max_rules:       The maximum number of rules to be used for prediction. Must be at least 1 or 0, if
                                     the number of rules should not be restricted
             :param predictor:       The predictor to be used for obtaining predictions
+            :param references:      The objects that are accessed by the predictor and therefore must be kept alive
             """
             if max_rules != 0:
                 assert_greater_or_equal('max_rules', max_rules, 1)
@@ -164,6 +169,7 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
                                        max_rules) if max_rules > 0 else model.get_num_used_rules()
             self.predictor = predictor
             self.num_considered_rules = 0
+            self.references = (model, *references)
 
         def get_num_next(self) -> int:
             """
@@ -263,8 +269,10 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules))
-            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor)
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), predictor, model,
+                    self.output_space_info_)
+            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor,
+                                                                           self.output_space_info_)
 
         return super()._predict_scores_incrementally(x, **kwargs)
 
@@ -512,9 +520,12 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalProbabilityPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules))
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), predictor, model,
+                    self.output_space_info_, self.marginal_probability_calibration_model_,
+                    self.joint_probability_calibration_model_)
             return ClassificationRuleLearner.NonNativeIncrementalProbabilityPredictor(
-                feature_matrix, model, max_rules, predictor)
+                feature_matrix, model, max_rules, predictor, self.output_space_info_,
+                self.marginal_probability_calibration_model_, self.joint_probability_calibration_model_)
 
         return super().predict_proba_incrementally(x, **kwargs)
 
@@ -591,8 +602,12 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules))
-            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor)
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), predictor, model,
+                    self.output_space_info_, self.marginal_probability_calibration_model_,
+                    self.joint_probability_calibration_model_)
+            return ClassificationRuleLearner.NonNativeIncrementalPredictor(
+                feature_matrix, model, max_rules, predictor, self.output_space_info_,
+                self.marginal_probability_calibration_model_, self.joint_probability_calibration_model_)
 
         return super()._predict_binary_incrementally(x, **kwargs)
 
-- 
2.43.0


From 58460fea27adcccbb788f8b8943d2728eb2d5eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:46 +0000
Subject: [PATCH 25/53] fix: raise an error instead of recursing endlessly if
 the incremental prediction of probabilities is not supported

---
 python/subprojects/common/mlrl/common/rule_learners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index aa0b835..89bbf66 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -527,7 +527,7 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
                 feature_matrix, model, max_rules, predictor, self.output_space_info_,
                 self.marginal_probability_calibration_model_, self.joint_probability_calibration_model_)
 
-        return super().predict_proba_incrementally(x, **kwargs)
+        return super()._predict_proba_incrementally(x, **kwargs)
 
     @staticmethod
     def _create_binary_predictor(learner: RuleLearnerWrapper, model: RuleModel, output_space_info: OutputSpaceInfo,
-- 
2.43.0


From 1ac873ff96ee9e54399cc08d1bc19cf93f1d1121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:02 +0000
Subject: [PATCH 26/53] fix: return copies of the predictions that are obtained
 incrementally to ensure that they remain valid

---
 .../common/mlrl/common/cython/prediction.pyx           | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/prediction.pyx b/python/subprojects/common/mlrl/common/cython/prediction.pyx
index b630df3..9e394ff 100644
--- a/python/subprojects/common/mlrl/common/cython/prediction.pyx
+++ b/python/subprojects/common/mlrl/common/cython/prediction.pyx
@@ -49,7 +49,7 @@ cdef class IncrementalBinaryPredictor:
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
         cdef uint8* array = prediction_matrix_ptr.get()
         cdef uint8[:, ::1] prediction_matrix = c_view_uint8(array, num_rows, num_cols)
-        return np.asarray(prediction_matrix)
+        return np.array(prediction_matrix)
 
 
 cdef class BinaryPredictor:
@@ -135,8 +135,8 @@ cdef class IncrementalSparseBinaryPredictor:
         cdef uint32* indices = prediction_matrix_ptr.getIndices()
         cdef uint32* indptr = prediction_matrix_ptr.getIndptr()
         data = np.ones(shape=(num_dense_elements), dtype=np.uint8) if num_dense_elements > 0 else np.asarray([])
-        pred_indices = np.asarray(view_uint32(indices, num_dense_elements) if num_dense_elements > 0 else [])
-        pred_indptr = np.asarray(view_uint32(indptr, num_rows + 1))
+        pred_indices = np.array(view_uint32(indices, num_dense_elements) if num_dense_elements > 0 else [])
+        pred_indptr = np.array(view_uint32(indptr, num_rows + 1))
         return csr_array((data, pred_indices, pred_indptr), shape=(num_rows, num_cols))
 
 
@@ -226,7 +226,7 @@ cdef class IncrementalScorePredictor:
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
         cdef float64* array = prediction_matrix_ptr.get()
         cdef float64[:, ::1] prediction_matrix = c_view_float64(array, num_rows, num_cols)
-        return np.asarray(prediction_matrix)
+        return np.array(prediction_matrix)
 
 cdef class ScorePredictor:
     """
@@ -309,7 +309,7 @@ cdef class IncrementalProbabilityPredictor:
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
         cdef float64* array = prediction_matrix_ptr.get()
         cdef float64[:, ::1] prediction_matrix = c_view_float64(array, num_rows, num_cols)
-        return np.asarray(prediction_matrix)
+        return np.array(prediction_matrix)
 
 
 cdef class ProbabilityPredictor:
-- 
2.43.0


From e42bda3e3115f9a7b1306f2e7b0c13551259b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:05 +0000
Subject: [PATCH 27/53] fix: consider explicitly stored zeros, duplicates and
 unsorted indices of sparse label and regression matrices

---
 python/subprojects/common/mlrl/common/rule_learners.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 89bbf66..c93836c 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -447,6 +447,9 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
 
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the labels of the training examples')
+            y = y.copy()
+            y.sum_duplicates()
+            y.eliminate_zeros()
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
             return CsrLabelMatrix(y_indices, y_indptr, y.shape[0], y.shape[1])
@@ -624,6 +627,8 @@ class RegressionRuleLearner(RuleLearner, RegressorMixin, IncrementalRegressorMix
 
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the regression scores of the training examples')
+            y = y.copy()
+            y.sum_duplicates()
             y_data = np.ascontiguousarray(y.data, dtype=Float32)
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
-- 
2.43.0


From 68461d215673c1663fc942caea8f2d1720352e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:21 +0000
Subject: [PATCH 28/53] fix: do not consider numerical features as sparse if
 missing values are the only elements they lack

---
 .../src/mlrl/common/input/feature_type_numerical.cpp       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_type_numerical.cpp b/cpp/subprojects/common/src/mlrl/common/input/feature_type_numerical.cpp
index bc42516..9c5b4b8 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_type_numerical.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_type_numerical.cpp
@@ -30,13 +30,14 @@ static inline std::unique_ptr<IFeatureVector> createFeatureVectorInternally(
     // Check if all feature values are equal...
     NumericalFeatureVector& numericalFeatureVector = featureVectorDecoratorPtr->getView().firstView;
     uint32 numElements = numericalFeatureVector.numElements;
-    uint32 numExamples = featureMatrix.numRows;
+    uint32 numMissing = featureVectorDecoratorPtr->getView().secondView.getNumIndices();
+    bool sparse = numElements + numMissing < featureMatrix.numRows;
 
     if (numElements > 0
-        && (numElements < numExamples
+        && (sparse
             || !isEqual(numericalFeatureVector[0].value, numericalFeatureVector[numElements - 1].value))) {
         numericalFeatureVector.sparseValue = featureMatrix.sparseValue;
-        numericalFeatureVector.sparse = numElements < numExamples;
+        numericalFeatureVector.sparse = sparse;
         return featureVectorDecoratorPtr;
     }
 
-- 
2.43.0


From 5d2d60b1327baf44a54a987bfa0e5f102c1236a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 29/53] fix: update the sum of uncovered weights atomically, as
 several threads may update the coverage of examples

---
 .../seco/include/mlrl/seco/data/matrix_coverage_dense.hpp     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp b/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp
index 5cc83a1..35b8f03 100644
--- a/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp
+++ b/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp
@@ -8,6 +8,8 @@
 #include "mlrl/common/indices/index_vector_complete.hpp"
 #include "mlrl/common/indices/index_vector_partial.hpp"
 
+#include <atomic>
+
 namespace seco {
 
     /**
@@ -17,7 +19,7 @@ namespace seco {
     class DenseCoverageMatrix final : public DenseMatrixDecorator<AllocatedCContiguousView<uint32>> {
         private:
 
-            float64 sumOfUncoveredWeights_;
+            std::atomic<float64> sumOfUncoveredWeights_;
 
         public:
 
-- 
2.43.0


From 92eef3a5b4ba4b28c63ec64acd5eef554c132895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:27 +0000
Subject: [PATCH 30/53] fix: consider duplicates and unsorted indices of sparse
 feature matrices

---
 python/subprojects/common/mlrl/common/rule_learners.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index c93836c..68854b8 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -318,6 +318,8 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
             log.debug(
                 'A sparse matrix with sparse value %s is used to store the feature values of the training examples',
                 sparse_feature_value)
+            x = x.copy()
+            x.sum_duplicates()
             x_data = np.ascontiguousarray(x.data, dtype=Float32)
             x_indices = np.ascontiguousarray(x.indices, dtype=Uint32)
             x_indptr = np.ascontiguousarray(x.indptr, dtype=Uint32)
@@ -351,6 +353,8 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         if is_sparse(x):
             log.debug('A sparse matrix with sparse value %s is used to store the feature values of the query examples',
                       sparse_feature_value)
+            x = x.copy()
+            x.sum_duplicates()
             x_data = np.ascontiguousarray(x.data, dtype=Float32)
             x_indices = np.ascontiguousarray(x.indices, dtype=Uint32)
             x_indptr = np.ascontiguousarray(x.indptr, dtype=Uint32)
-- 
2.43.0


From b13ed97925cbceb8b22c2b5154f1740a8da06146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:10 +0000
Subject: [PATCH 31/53] fix: sort the predictions of the default rule, as it is
 expected by the statistics

---
 .../src/mlrl/common/rule_induction/rule_induction_common.hpp   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
index 7d033c9..a2e69e7 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
@@ -91,6 +91,9 @@ class AbstractRuleInduction : public IRuleInduction {
             ScoreProcessor scoreProcessor(defaultPredictionPtr);
             scoreProcessor.processScores(scoreVector);
 
+            // Sort the default rule's predictions by the corresponding output indices...
+            defaultPredictionPtr->sort();
+
             std::unique_ptr<IStatisticsUpdate> statisticsUpdatePtr =
               defaultPredictionPtr->createStatisticsUpdate(statistics);
 
-- 
2.43.0


From 13f78a5e054692a5c932c004cb314de0b4939002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:17 +0000
Subject: [PATCH 32/53] fix: keep the native learner alive as long as
 incremental predictors that were created by it

---
 .../subprojects/common/mlrl/common/rule_learners.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 68854b8..5238b02 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -269,10 +269,10 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules), predictor, model,
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), learner, predictor, model,
                     self.output_space_info_)
             return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor,
-                                                                           self.output_space_info_)
+                                                                           learner, self.output_space_info_)
 
         return super()._predict_scores_incrementally(x, **kwargs)
 
@@ -527,11 +527,11 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalProbabilityPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules), predictor, model,
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), learner, predictor, model,
                     self.output_space_info_, self.marginal_probability_calibration_model_,
                     self.joint_probability_calibration_model_)
             return ClassificationRuleLearner.NonNativeIncrementalProbabilityPredictor(
-                feature_matrix, model, max_rules, predictor, self.output_space_info_,
+                feature_matrix, model, max_rules, predictor, learner, self.output_space_info_,
                 self.marginal_probability_calibration_model_, self.joint_probability_calibration_model_)
 
         return super()._predict_proba_incrementally(x, **kwargs)
@@ -609,11 +609,11 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules), predictor, model,
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), learner, predictor, model,
                     self.output_space_info_, self.marginal_probability_calibration_model_,
                     self.joint_probability_calibration_model_)
             return ClassificationRuleLearner.NonNativeIncrementalPredictor(
-                feature_matrix, model, max_rules, predictor, self.output_space_info_,
+                feature_matrix, model, max_rules, predictor, learner, self.output_space_info_,
                 self.marginal_probability_calibration_model_, self.joint_probability_calibration_model_)
 
         return super()._predict_binary_incrementally(x, **kwargs)
-- 
2.43.0


From fd97a438fb0136b54d46dcfb9a0f77ba2ff9f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:17 +0000
Subject: [PATCH 33/53] fix: use the automatic binary predictor if it is
 configured

---
 .../boosting/mlrl/boosting/cython/learner_boomer.pyx            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
index 34a701d..586c995 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
@@ -557,7 +557,7 @@ cdef class BoomerClassifierConfig(RuleLearnerConfig,
         return config
 
     def use_automatic_binary_predictor(self):
-        self.config_ptr.get().useOutputWiseBinaryPredictor()
+        self.config_ptr.get().useAutomaticBinaryPredictor()
 
 
 cdef class BoomerClassifier(ClassificationRuleLearner):
-- 
2.43.0


From e948ac1e66e4fe1fe3ecec38113f6320e298277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:39 +0000
Subject: [PATCH 34/53] fix: discard missing values when filtering nominal
 feature vectors by an inverse interval

---
 .../src/mlrl/common/input/feature_vector_decorator_nominal.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_nominal.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_nominal.hpp
index 9a9aac2..00e7378 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_nominal.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_nominal.hpp
@@ -21,6 +21,9 @@ static inline std::unique_ptr<IFeatureVector> createFilteredNominalFeatureVector
             // Reuse the existing feature vector...
             existing.release();
             filteredDecoratorPtr = std::unique_ptr<Decorator>(existingDecorator);
+
+            // Examples with missing feature values are not covered anymore...
+            filteredDecoratorPtr->getView().secondView.clear();
         } else {
             // Create a new feature vector...
             filteredDecoratorPtr = std::make_unique<Decorator>(view);
-- 
2.43.0


From bb3a34d63507b20c810195552cfc91b1fcc9131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:40 +0000
Subject: [PATCH 35/53] fix: traverse sparse scores in increasing order when
 evaluating decomposable losses

---
 .../losses/loss_decomposable_sparse_common.hpp         | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp
index 5a5ad75..c61ecb6 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp
@@ -9,6 +9,7 @@
 
 #include <algorithm>
 #include <limits>
+#include <vector>
 
 namespace boosting {
 
@@ -125,7 +126,14 @@ namespace boosting {
         float64 score = 0;
         uint32 i = 0;
 
-        while (fetchNextNonZeroEvaluation(indicesBegin, indicesEnd, scoresBegin, scoresEnd, score, evaluateFunction)
+        // The scores are stored in the order of their insertion, but they must be traversed in increasing order...
+        std::vector<IndexedValue<float64>> sortedScores(scoresBegin, scoresEnd);
+        std::sort(sortedScores.begin(), sortedScores.end(), IndexedValue<float64>::CompareIndex());
+        SparseSetView<float64>::value_const_iterator sortedScoresBegin = sortedScores.cbegin();
+        SparseSetView<float64>::value_const_iterator sortedScoresEnd = sortedScores.cend();
+
+        while (fetchNextNonZeroEvaluation(indicesBegin, indicesEnd, sortedScoresBegin, sortedScoresEnd, score,
+                                          evaluateFunction)
                < LIMIT) {
             mean = util::iterativeArithmeticMean<float64>(i + 1, score, mean);
             i++;
-- 
2.43.0


From 94eca72a3e89f17f3680bb8efea1cc94fa79cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:07 +0000
Subject: [PATCH 36/53] fix: respect the minimum and maximum number of features
 if the default sample size is used

---
 .../common/sampling/feature_sampling_without_replacement.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
index 7fdc930..c416692 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
@@ -153,6 +153,11 @@ std::unique_ptr<IFeatureSamplingFactory> FeatureSamplingWithoutReplacementConfig
         numSamples = util::calculateBoundedFraction(numRemainingFeatures, sampleSize_, minSamples_, maxSamples_);
     } else if (numRemainingFeatures > 1) {
         numSamples = static_cast<uint32>(log2(numRemainingFeatures - 1) + 1);
+        numSamples = std::max(numSamples, std::min(minSamples_, numRemainingFeatures));
+
+        if (maxSamples_ >= minSamples_) {
+            numSamples = std::min(numSamples, maxSamples_);
+        }
     } else {
         numSamples = numRemainingFeatures;
     }
-- 
2.43.0


From 7ed66a74a913580e67be0baa0a38f1f4d91d4f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:33 +0000
Subject: [PATCH 37/53] fix: keep all rows and columns when loading sparse ARFF
 files

---
 python/subprojects/testbed/mlrl/testbed/data.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index 1da5244..88c0fc9 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -378,10 +378,10 @@ def __load_arff(arff_file: str, feature_dtype) -> Tuple[csc_array, list, str]:
     try:
         arff_dict = __load_arff_as_dict(arff_file, sparse=True)
         data = arff_dict['data']
-        matrix_data = data[0]
-        matrix_row_indices = data[1]
-        matrix_col_indices = data[2]
-        shape = (max(matrix_row_indices) + 1, max(matrix_col_indices) + 1)
+        shape = (len(data), len(arff_dict['attributes']))
+        matrix_data = [value for row in data for value in row.values()]
+        matrix_row_indices = [i for i, row in enumerate(data) for _ in row]
+        matrix_col_indices = [j for row in data for j in row]
         matrix = coo_array((matrix_data, (matrix_row_indices, matrix_col_indices)), shape=shape, dtype=feature_dtype)
         matrix = matrix.tocsc()
     except arff.BadLayout:
@@ -404,7 +404,7 @@ def __load_arff_as_dict(arff_file: str, sparse: bool) -> dict:
     :return:            A dictionary that stores the content of the ARFF file
     """
     with open(arff_file, 'r', encoding=ENCODING_UTF8) as file:
-        sparse_format = arff.COO if sparse else arff.DENSE
+        sparse_format = arff.LOD if sparse else arff.DENSE
         return arff.load(file, encode_nominal=True, return_type=sparse_format)
 
 
-- 
2.43.0


From 2e9eacf879a28db67481170b72f27aab1b0ff530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:33 +0000
Subject: [PATCH 38/53] fix: support a negative number of outputs in @relation
 declarations

---
 python/subprojects/testbed/mlrl/testbed/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index 88c0fc9..6d91385 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -437,7 +437,8 @@ def __parse_outputs_from_relation(relation: str, features: list) -> List[Output]
         parameter_value = parameter_value[:index]
 
     num_outputs = int(parameter_value)
-    return [Output(__parse_feature_or_output_name(features[i][0])) for i in range(num_outputs)]
+    output_features = features[:num_outputs] if num_outputs >= 0 else features[num_outputs:]
+    return [Output(__parse_feature_or_output_name(feature[0])) for feature in output_features]
 
 
 def __create_meta_data(features: List[Feature], outputs: List[Output]) -> MetaData:
-- 
2.43.0


From eb02323cb179d3864b2632f96f470ee77b23a0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 39/53] fix: allow to use one-hot encoding together with
 predefined cross validation folds

---
 python/subprojects/testbed/mlrl/testbed/data_splitting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data_splitting.py b/python/subprojects/testbed/mlrl/testbed/data_splitting.py
index 0713025..d105ca7 100644
--- a/python/subprojects/testbed/mlrl/testbed/data_splitting.py
+++ b/python/subprojects/testbed/mlrl/testbed/data_splitting.py
@@ -13,9 +13,13 @@ from os import path
 from timeit import default_timer as timer
 from typing import List, Optional
 
+import numpy as np
+
 from scipy.sparse import vstack
 from sklearn.model_selection import KFold, train_test_split
 
+from mlrl.common.arrays import is_sparse
+
 from mlrl.testbed.data import MetaData, load_data_set, load_data_set_and_meta_data, one_hot_encode
 from mlrl.testbed.format import format_duration
 from mlrl.testbed.io import SUFFIX_ARFF, SUFFIX_XML, get_file_name, get_file_name_per_fold
@@ -449,7 +453,7 @@ class CrossValidationSplitter(DataSplitter):
                         train_x = x
                         train_y = y
                     else:
-                        train_x = vstack((train_x, x))
+                        train_x = vstack((train_x, x)) if is_sparse(x) else np.vstack((train_x, x))
                         train_y = vstack((train_y, y))
 
             # Obtain test set for current fold...
-- 
2.43.0


From b286a09f46ce7ed85382eec3639fea119012bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:11 +0000
Subject: [PATCH 40/53] fix: respect the maximum model size when evaluating
 models incrementally

---
 python/subprojects/testbed/mlrl/testbed/experiments.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/experiments.py b/python/subprojects/testbed/mlrl/testbed/experiments.py
index 914ee69..dd1a431 100644
--- a/python/subprojects/testbed/mlrl/testbed/experiments.py
+++ b/python/subprojects/testbed/mlrl/testbed/experiments.py
@@ -198,9 +198,10 @@ class IncrementalEvaluation(Evaluation):
 
             min_size = self.min_size
             next_step_size = min_size if min_size > 0 else step_size
-            current_size = min(next_step_size, total_size)
+            next_step_size = min(next_step_size, total_size)
+            current_size = next_step_size
 
-            while incremental_predictor.has_next():
+            while next_step_size > 0:
                 log.info('Predicting for %s %s examples using a model of size %s...', x.shape[0], data_type.value,
                          current_size)
                 start_time = timer()
@@ -222,8 +223,8 @@ class IncrementalEvaluation(Evaluation):
                                                predictions=predictions,
                                                learner=learner)
 
-                next_step_size = step_size
-                current_size = min(current_size + next_step_size, total_size)
+                next_step_size = min(step_size, total_size - current_size)
+                current_size += next_step_size
 
 
 class Experiment(DataSplitter.Callback):
-- 
2.43.0


From 9c1039d041a7d1ec3c7bac7292257089c8357972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:11 +0000
Subject: [PATCH 41/53] fix: pass keyword arguments to learners when
 probabilities are predicted

---
 python/subprojects/testbed/mlrl/testbed/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/experiments.py b/python/subprojects/testbed/mlrl/testbed/experiments.py
index dd1a431..04eb7b2 100644
--- a/python/subprojects/testbed/mlrl/testbed/experiments.py
+++ b/python/subprojects/testbed/mlrl/testbed/experiments.py
@@ -70,7 +70,7 @@ class Evaluation(ABC):
                 result = None
         elif prediction_type == PredictionType.PROBABILITIES:
             try:
-                result = predict_proba_function(x)
+                result = predict_proba_function(x, **kwargs)
             except RuntimeError:
                 log.error('Prediction of probabilities not supported')
                 result = None
-- 
2.43.0


From 65486d8450e80087f10fb22ca5ca89b23486af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:28 +0000
Subject: [PATCH 42/53] fix: average incremental evaluation results across
 folds per model size

---
 python/subprojects/testbed/mlrl/testbed/evaluation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/evaluation.py b/python/subprojects/testbed/mlrl/testbed/evaluation.py
index 961da97..236603a 100644
--- a/python/subprojects/testbed/mlrl/testbed/evaluation.py
+++ b/python/subprojects/testbed/mlrl/testbed/evaluation.py
@@ -381,7 +381,7 @@ class EvaluationWriter(OutputWriter, ABC):
 
     def __init__(self, sinks: List[OutputWriter.Sink]):
         super().__init__(sinks)
-        self.results: Dict[str, EvaluationWriter.EvaluationResult] = {}
+        self.results: Dict[Tuple[Optional[DataType], int], EvaluationWriter.EvaluationResult] = {}
 
     @abstractmethod
     def _populate_result(self, data_split: DataSplit, result: EvaluationResult, predictions, ground_truth):
@@ -401,8 +401,8 @@ class EvaluationWriter(OutputWriter, ABC):
                               learner, data_type: Optional[DataType], prediction_type: Optional[PredictionType],
                               prediction_scope: Optional[PredictionScope], predictions: Optional[Any],
                               train_time: float, predict_time: float) -> Optional[Any]:
-        result = self.results[data_type] if data_type in self.results else EvaluationWriter.EvaluationResult()
-        self.results[data_type] = result
+        key = (data_type, 0 if prediction_scope is None else prediction_scope.get_model_size())
+        result = self.results.setdefault(key, EvaluationWriter.EvaluationResult())
         num_folds = data_split.get_num_folds()
         fold = data_split.get_fold()
         result.put(EVALUATION_MEASURE_TRAINING_TIME, train_time, num_folds=num_folds, fold=fold)
-- 
2.43.0


From d03b7a2764764687898b5e6c6e89bb376d04166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:26 +0000
Subject: [PATCH 43/53] fix: support empty label vectors when writing the label
 vectors of a data set

---
 python/subprojects/testbed/mlrl/testbed/label_vectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/label_vectors.py b/python/subprojects/testbed/mlrl/testbed/label_vectors.py
index 50c68a4..9cd335d 100644
--- a/python/subprojects/testbed/mlrl/testbed/label_vectors.py
+++ b/python/subprojects/testbed/mlrl/testbed/label_vectors.py
@@ -63,7 +63,8 @@ class LabelVectorWriter(OutputWriter):
 
                 for label_vector_string, frequency in unique_label_vector_strings.items():
                     label_vector = np.asarray(
-                        [int(label_index) for label_index in label_vector_string.split(separator)])
+                        [int(label_index) for label_index in label_vector_string.split(separator) if label_index],
+                        dtype=int)
                     unique_label_vectors.append((label_vector, frequency))
 
                 self.unique_label_vectors = unique_label_vectors
-- 
2.43.0


From 021502253c425a01bde9c9923a33659e77bbd182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 44/53] fix: do not confuse the thresholds and probabilities
 when writing calibration models to CSV files

---
 .../subprojects/testbed/mlrl/testbed/probability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
index af73bea..68511b0 100644
--- a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
+++ b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
@@ -102,7 +102,7 @@ class ProbabilityCalibrationModelWriter(OutputWriter, ABC):
                     column_threshold = self.__format_threshold_column(list_index)
 
                     if len(bin_list) > i:
-                        probability, threshold = bin_list[i]
+                        threshold, probability = bin_list[i]
                         columns[column_probability] = format_float(probability, decimals=decimals)
                         columns[column_threshold] = format_float(threshold, decimals=decimals)
                         end = False
-- 
2.43.0


From cbb69513f5ddf5d63afa201cc17c34165bcdb926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 45/53] fix: do not write the bins of calibration models
 repeatedly if there are several sinks

---
 .../subprojects/testbed/mlrl/testbed/probability_calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
index 68511b0..e7d48cd 100644
--- a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
+++ b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
@@ -61,6 +61,7 @@ class ProbabilityCalibrationModelWriter(OutputWriter, ABC):
             """
             See :func:`mlrl.testbed.output_writer.Formattable.format`
             """
+            self.bins = {}
             self.calibration_model.visit(self)
             decimals = options.get_int(OPTION_DECIMALS, 4)
             bins = self.bins
@@ -86,6 +87,7 @@ class ProbabilityCalibrationModelWriter(OutputWriter, ABC):
             """
             See :func:`mlrl.testbed.output_writer.Tabularizable.tabularize`
             """
+            self.bins = {}
             self.calibration_model.visit(self)
             decimals = options.get_int(OPTION_DECIMALS, 0)
             bins = self.bins
-- 
2.43.0


From ee6e3c5a22144f38f709a03f8b06036898eb7f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 46/53] fix: allow to write prediction characteristics of
 incremental evaluations to CSV files

---
 python/subprojects/testbed/mlrl/testbed/characteristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/characteristics.py b/python/subprojects/testbed/mlrl/testbed/characteristics.py
index 0d1668b..6a1dc58 100644
--- a/python/subprojects/testbed/mlrl/testbed/characteristics.py
+++ b/python/subprojects/testbed/mlrl/testbed/characteristics.py
@@ -173,7 +173,7 @@ class OutputCharacteristics(Formattable, Tabularizable):
         columns = {}
 
         for formatter in filter_formatters(self.formatters, [options]):
-            columns[formatter] = formatter.format(self, percentage=percentage, decimals=decimals)
+            columns[formatter.name] = formatter.format(self, percentage=percentage, decimals=decimals)
 
         return [columns]
 
-- 
2.43.0


From 198f98cdaf354b64881fad56b4f085ff560fa719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 47/53] fix: use indices of an integer type for empty label
 vectors

---
 .../common/mlrl/common/cython/output_space_info.pyx            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/cython/output_space_info.pyx b/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
index 6b870de..c860eb6 100644
--- a/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
+++ b/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
@@ -74,7 +74,8 @@ cdef class LabelVectorSet(OutputSpaceInfo):
 
     cdef __visit_label_vector(self, const LabelVector& label_vector, uint32 frequency):
         cdef uint32 num_elements = label_vector.getNumElements()
-        label_indices = np.asarray(<uint32[:num_elements]>label_vector.cbegin() if num_elements > 0 else [])
+        label_indices = np.asarray(<uint32[:num_elements]>label_vector.cbegin() if num_elements > 0 else [],
+                                   dtype=np.uint32)
         self.visitor.visit_label_vector(label_indices, frequency)
 
     cdef __serialize_label_vector(self, const LabelVector& label_vector, uint32 frequency):
-- 
2.43.0


From 6cbf1b76016a0a70ffab2924d05c064a1d2dfd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 48/53] fix: raise exceptions if values given for parameters
 are NaN or exceed their range when rounded to 32 bits

---
 .../include/mlrl/common/util/validation.hpp   |  4 ++--
 .../mlrl/common/cython/instance_sampling.pxd  | 24 +++++++++----------
 .../mlrl/common/cython/output_sampling.pxd    |  6 ++---
 .../common/mlrl/common/cython/validation.py   |  8 +++----
 4 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/util/validation.hpp b/cpp/subprojects/common/include/mlrl/common/util/validation.hpp
index 0fa8349..273c7fb 100644
--- a/cpp/subprojects/common/include/mlrl/common/util/validation.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/util/validation.hpp
@@ -34,7 +34,7 @@ namespace util {
      */
     template<typename T>
     static inline constexpr void assertGreaterOrEqual(const std::string& name, const T value, const T threshold) {
-        if (value < threshold) {
+        if (!(value >= threshold)) {
             throw std::invalid_argument("Invalid value given for parameter \"" + name
                                         + "\": Must be greater or equal to " + std::to_string(threshold) + ", but is "
                                         + std::to_string(value));
@@ -67,7 +67,7 @@ namespace util {
      */
     template<typename T>
     static inline constexpr void assertLessOrEqual(const std::string& name, const T value, const T threshold) {
-        if (value > threshold) {
+        if (!(value <= threshold)) {
             throw std::invalid_argument("Invalid value given for parameter \"" + name + "\": Must be less or equal to "
                                         + std::to_string(threshold) + ", but is " + std::to_string(value));
         }
diff --git a/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd b/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd
index bc50e81..5bb6a60 100644
--- a/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd
+++ b/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd
@@ -9,15 +9,15 @@ cdef extern from "mlrl/common/sampling/instance_sampling_stratified_example_wise
 
         float32 getSampleSize() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setSampleSize(float32 sampleSize)
+        IExampleWiseStratifiedInstanceSamplingConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples) except +
 
 
 cdef extern from "mlrl/common/sampling/instance_sampling_stratified_output_wise.hpp" nogil:
@@ -28,15 +28,15 @@ cdef extern from "mlrl/common/sampling/instance_sampling_stratified_output_wise.
 
         float32 getSampleSize() const
 
-        IOutputWiseStratifiedInstanceSamplingConfig& setSampleSize(float32 sampleSize)
+        IOutputWiseStratifiedInstanceSamplingConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples) except +
 
 
 cdef extern from "mlrl/common/sampling/instance_sampling_with_replacement.hpp" nogil:
@@ -47,15 +47,15 @@ cdef extern from "mlrl/common/sampling/instance_sampling_with_replacement.hpp" n
 
         float32 getSampleSize() const
 
-        IInstanceSamplingWithReplacementConfig& setSampleSize(float32 sampleSize)
+        IInstanceSamplingWithReplacementConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples) except +
 
 
 cdef extern from "mlrl/common/sampling/instance_sampling_without_replacement.hpp" nogil:
@@ -66,15 +66,15 @@ cdef extern from "mlrl/common/sampling/instance_sampling_without_replacement.hpp
 
         float32 getSampleSize() const
 
-        IInstanceSamplingWithoutReplacementConfig& setSampleSize(float32 sampleSize)
+        IInstanceSamplingWithoutReplacementConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples) except +
 
 
 cdef class ExampleWiseStratifiedInstanceSamplingConfig:
diff --git a/python/subprojects/common/mlrl/common/cython/output_sampling.pxd b/python/subprojects/common/mlrl/common/cython/output_sampling.pxd
index 63e6ba0..83aa93b 100644
--- a/python/subprojects/common/mlrl/common/cython/output_sampling.pxd
+++ b/python/subprojects/common/mlrl/common/cython/output_sampling.pxd
@@ -9,15 +9,15 @@ cdef extern from "mlrl/common/sampling/output_sampling_without_replacement.hpp"
 
         float32 getSampleSize() const
 
-        IOutputSamplingWithoutReplacementConfig& setSampleSize(float32 sampleSize)
+        IOutputSamplingWithoutReplacementConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IOutputSamplingWithoutReplacementConfig& setMinSamples(float32 minSamples)
+        IOutputSamplingWithoutReplacementConfig& setMinSamples(float32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IOutputSamplingWithoutReplacementConfig& setMaxSamples(float32 maxSamples)
+        IOutputSamplingWithoutReplacementConfig& setMaxSamples(float32 maxSamples) except +
 
 
 cdef class OutputSamplingWithoutReplacementConfig:
diff --git a/python/subprojects/common/mlrl/common/cython/validation.py b/python/subprojects/common/mlrl/common/cython/validation.py
index 5bda176..939707a 100644
--- a/python/subprojects/common/mlrl/common/cython/validation.py
+++ b/python/subprojects/common/mlrl/common/cython/validation.py
@@ -11,7 +11,7 @@ def assert_greater(name: str, value, threshold):
     :param value:       The value
     :param threshold:   The threshold
     """
-    if value <= threshold:
+    if not value > threshold:
         raise ValueError('Invalid value given for parameter "' + name + '": Must be greater than ' + str(threshold)
                          + ', but is ' + str(value))
 
@@ -24,7 +24,7 @@ def assert_greater_or_equal(name: str, value, threshold):
     :param value:       The value
     :param threshold:   The threshold
     """
-    if value < threshold:
+    if not value >= threshold:
         raise ValueError('Invalid value given for parameter "' + name + '": Must be greater or equal to '
                          + str(threshold) + ', but is ' + str(value))
 
@@ -37,7 +37,7 @@ def assert_less(name: str, value, threshold):
     :param value:       The value
     :param threshold:   The threshold
     """
-    if value >= threshold:
+    if not value < threshold:
         raise ValueError('Invalid value given for parameter "' + name + '": Must be less than ' + str(threshold)
                          + ', but is ' + str(value))
 
@@ -50,7 +50,7 @@ def assert_less_or_equal(name: str, value, threshold):
     :param value:       The value
     :param threshold:   The threshold
     """
-    if value > threshold:
+    if not value <= threshold:
         raise ValueError('Invalid value given for parameter "' + name + '": Must be less or equal to ' + str(threshold)
                          + ', but is ' + str(value))
 
-- 
2.43.0


From de784a81f205a448dfc508286d40b048af35ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 49/53] fix: accept the value "auto" for all parameters of
 BOOMER that are documented to support it

---
 .../boosting/mlrl/boosting/config.py          | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/config.py b/python/subprojects/boosting/mlrl/boosting/config.py
index cc27461..6c3b0db 100644
--- a/python/subprojects/boosting/mlrl/boosting/config.py
+++ b/python/subprojects/boosting/mlrl/boosting/config.py
@@ -12,11 +12,11 @@ from mlrl.common.cython.learner import DefaultRuleMixin, NoJointProbabilityCalib
     NoMarginalProbabilityCalibrationMixin, NoPostProcessorMixin
 from mlrl.common.options import BooleanOption, Options
 
-from mlrl.boosting.cython.learner import AutomaticFeatureBinningMixin, AutomaticParallelRuleRefinementMixin, \
-    AutomaticParallelStatisticUpdateMixin, CompleteHeadMixin, ConstantShrinkageMixin, \
-    DecomposableSquaredErrorLossMixin, DynamicPartialHeadMixin, FixedPartialHeadMixin, L1RegularizationMixin, \
-    L2RegularizationMixin, NoL1RegularizationMixin, NoL2RegularizationMixin, NonDecomposableSquaredErrorLossMixin, \
-    SingleOutputHeadMixin
+from mlrl.boosting.cython.learner import AutomaticFeatureBinningMixin, AutomaticHeadMixin, \
+    AutomaticParallelRuleRefinementMixin, AutomaticParallelStatisticUpdateMixin, CompleteHeadMixin, \
+    ConstantShrinkageMixin, DecomposableSquaredErrorLossMixin, DynamicPartialHeadMixin, FixedPartialHeadMixin, \
+    L1RegularizationMixin, L2RegularizationMixin, NoL1RegularizationMixin, NoL2RegularizationMixin, \
+    NonDecomposableSquaredErrorLossMixin, SingleOutputHeadMixin
 from mlrl.boosting.cython.learner_classification import AutomaticBinaryPredictorMixin, AutomaticDefaultRuleMixin, \
     AutomaticLabelBinningMixin, AutomaticPartitionSamplingMixin, AutomaticProbabilityPredictorMixin, \
     AutomaticStatisticsMixin, DecomposableLogisticLossMixin, DecomposableSquaredHingeLossMixin, DenseStatisticsMixin, \
@@ -328,6 +328,10 @@ class HeadTypeParameter(NominalParameter):
                        mixin=DynamicPartialHeadMixin,
                        options={self.OPTION_THRESHOLD, self.OPTION_EXPONENT})
         self.add_value(name=self.HEAD_TYPE_COMPLETE, mixin=CompleteHeadMixin)
+        self.add_value(name=AUTOMATIC,
+                       mixin=AutomaticHeadMixin,
+                       description='If set to "' + AUTOMATIC + '", the most suitable type of rule heads is chosen '
+                       + 'automatically based on the parameter ' + RegressionLossParameter().argument_name)
 
     def _configure(self, config, value: str, options: Optional[Options]):
         if value == self.HEAD_TYPE_SINGLE:
@@ -479,7 +483,7 @@ class ProbabilityPredictorParameter(NominalParameter):
             config.use_automatic_probability_predictor()
 
 
-BOOMER_CLASSIFIER_PARAMETERS = RULE_LEARNER_PARAMETERS | {
+BOOMER_CLASSIFIER_PARAMETERS = {
     ExtendedPartitionSamplingParameter(),
     ExtendedFeatureBinningParameter(),
     ExtendedParallelRuleRefinementParameter(),
@@ -496,9 +500,9 @@ BOOMER_CLASSIFIER_PARAMETERS = RULE_LEARNER_PARAMETERS | {
     JointProbabilityCalibrationParameter(),
     BinaryPredictorParameter(),
     ProbabilityPredictorParameter()
-}
+} | RULE_LEARNER_PARAMETERS
 
-BOOMER_REGRESSOR_PARAMETERS = RULE_LEARNER_PARAMETERS | {
+BOOMER_REGRESSOR_PARAMETERS = {
     ExtendedPartitionSamplingParameter(),
     ExtendedFeatureBinningParameter(),
     ExtendedParallelRuleRefinementParameter(),
@@ -510,4 +514,4 @@ BOOMER_REGRESSOR_PARAMETERS = RULE_LEARNER_PARAMETERS | {
     StatisticFormatParameter(),
     RegressionLossParameter(),
     HeadTypeParameter()
-}
+} | RULE_LEARNER_PARAMETERS
-- 
2.43.0


From a14e6398dae92f8943a3a01355e13c2546acdd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 50/53] fix: raise an exception if the number of training
 examples and ground truth labels is inconsistent

---
 python/subprojects/common/mlrl/common/rule_learners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 5238b02..783a306 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -12,7 +12,7 @@ from typing import Any, Optional
 import numpy as np
 
 from sklearn.base import BaseEstimator as SkLearnBaseEstimator
-from sklearn.utils import check_array
+from sklearn.utils import check_array, check_consistent_length
 
 from mlrl.common.arrays import SparseFormat, enforce_2d, enforce_dense, is_sparse, is_sparse_and_memory_efficient
 from mlrl.common.cython.feature_info import EqualFeatureInfo, FeatureInfo, MixedFeatureInfo
@@ -205,6 +205,7 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         :keyword sparse_feature_value: The value that should be used for sparse elements in the feature matrix. Does
                                        only have an effect if `x` is a `scipy.sparse.spmatrix` or `scipy.sparse.sparray`
         """
+        check_consistent_length(x, y)
         feature_matrix = self._create_column_wise_feature_matrix(x, **kwargs)
         output_matrix = self.__create_row_wise_output_matrix(y)
         feature_info = self._create_feature_info(feature_matrix.get_num_features())
-- 
2.43.0


From 994987bcc506ac321ad3b49d27026cf7a5359a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 51/53] fix: raise an exception if indices of ordinal or
 nominal features are out of range

---
 python/subprojects/common/mlrl/common/cython/feature_info.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/subprojects/common/mlrl/common/cython/feature_info.pyx b/python/subprojects/common/mlrl/common/cython/feature_info.pyx
index d46f666..19bfcd6 100644
--- a/python/subprojects/common/mlrl/common/cython/feature_info.pyx
+++ b/python/subprojects/common/mlrl/common/cython/feature_info.pyx
@@ -5,6 +5,8 @@ from libcpp.utility cimport move
 
 from mlrl.common.cython._types cimport uint32
 
+from mlrl.common.cython.validation import assert_less
+
 
 cdef class FeatureInfo:
     """
@@ -61,9 +63,11 @@ cdef class MixedFeatureInfo(FeatureInfo):
         cdef uint32 feature_index
 
         for feature_index in nominal_feature_indices:
+            assert_less('nominal_feature_indices', feature_index, num_features)
             feature_info_ptr.get().setNominal(feature_index)
 
         for feature_index in ordinal_feature_indices:
+            assert_less('ordinal_feature_indices', feature_index, num_features)
             feature_info_ptr.get().setOrdinal(feature_index)
 
         self.feature_info_ptr = move(feature_info_ptr)
-- 
2.43.0


From 9097f351a49c79362ca9fadc52d691d760383c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 52/53] fix: consider the parameter random_state in regression
 problems

---
 .../boosting/mlrl/boosting/cython/learner_boomer.pxd       | 1 +
 .../boosting/mlrl/boosting/cython/learner_boomer.pyx       | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
index 9c9c192..8032174 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
@@ -134,6 +134,7 @@ cdef extern from "mlrl/boosting/learner_boomer_classifier.hpp" namespace "boosti
 cdef extern from "mlrl/boosting/learner_boomer_regressor.hpp" namespace "boosting" nogil:
 
     cdef cppclass IBoomerRegressorConfig"boosting::IBoomerRegressor::IConfig"(
+        IRNGMixin,
         IAutomaticPartitionSamplingMixin,
         IAutomaticFeatureBinningMixin,
         IAutomaticParallelRuleRefinementMixin,
diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
index 586c995..57651cd 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
@@ -576,6 +576,7 @@ cdef class BoomerClassifier(ClassificationRuleLearner):
 
 
 cdef class BoomerRegressorConfig(RuleLearnerConfig,
+                                 RNGMixin,
                                  AutomaticPartitionSamplingMixin,
                                  AutomaticFeatureBinningMixin,
                                  AutomaticParallelRuleRefinementMixin,
@@ -640,6 +641,12 @@ cdef class BoomerRegressorConfig(RuleLearnerConfig,
     def __cinit__(self):
         self.config_ptr = createBoomerRegressorConfig()
 
+    def use_rng(self) -> RNGConfig:
+        cdef IRNGConfig* config_ptr = &self.config_ptr.get().useRNG()
+        cdef RNGConfig config = RNGConfig.__new__(RNGConfig)
+        config.config_ptr = config_ptr
+        return config
+
     def use_sequential_rule_model_assemblage(self):
         self.config_ptr.get().useSequentialRuleModelAssemblage()
 
-- 
2.43.0


From b9b10be3986cd0244a412513a0007c079ee05c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 53/53] fix: treat positive and negative labels equally in the
 heuristic "accuracy"

---
 .../seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
index 14e7921..42eeb97 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
@@ -14,9 +14,9 @@ namespace seco {
             float64 evaluateConfusionMatrix(float64 cin, float64 cip, float64 crn, float64 crp, float64 uin,
                                             float64 uip, float64 urn, float64 urp) const override {
                 float64 numCoveredCorrect = cin + crp;
-                float64 numUncoveredCorrect = uin + uip;
+                float64 numUncoveredCorrect = uip + urn;
                 float64 numCorrect = numCoveredCorrect + numUncoveredCorrect;
-                float64 numTotal = numCorrect + cip + crn + urn + urp;
+                float64 numTotal = numCorrect + cip + crn + uin + urp;
                 return util::divideOrZero(numCorrect, numTotal);
             }
     };
-- 
2.43.0

