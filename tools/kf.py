import json
K=[]
def known(p,sig,what): K.append(dict(status='known',property=p,signature=sig,what=what))
def fixed(p,c,what): K.append(dict(status='fixed',property=p,commit=c,what=f'fixed: property={p} {c} {what}'))
known('P06',r'probe0:sparse-prediction-differs','SeCo classifier, six examples with one binary feature and one label (see probe_sparse_list in checks/p06.py): with prediction_format=sparse, a negative decision of an earlier rule is ignored and a later rule or the default rule sets the label; the dense prediction is right. Recorded outputs of existing tests pin the behaviour.')
known('P01',r'probe0:.*','BOOMER, 40 dense normal examples, beam search (beam_width=4) combined with equal-width feature binning (probe 0 in checks/p01.py): heap-buffer-overflow when the binned feature vectors of a copied feature subspace are filtered. A correct repair changes the recorded outputs of existing tests.')
known('P01',r'probe1:.*','BOOMER, nominal features in a CSR matrix with explicitly stored elements that are equal to the sparse value (probe 1 in checks/p01.py): such elements are counted twice and the values/indices of the last bin remain uninitialised. The repair changes the recorded output of BoomerRegressorIntegrationTests.test_sparse_feature_value.')
known('P01',r'probe2:.*','SeCo, beam search on nominal features combined with rule pruning (probe 2 in checks/p01.py): the conditions of a refined beam member cannot be replayed, an exception is thrown in native code and the process is terminated. Both attempted repairs change the recorded outputs of existing tests.')
known('P05',r'probe0:model-depends-on-representation','BOOMER regressor, single-output heads, 40 examples and 3 dense outputs (probe 0 in checks/p05.py): after a rule that does not predict for all outputs, the derivatives of the first outputs are updated instead of those it predicts for; with the same outputs in a sparse matrix, the model is right. The repair changes the recorded outputs of five existing tests.')
known('P11',r'probe0:newton-step-non-decomposable-regression','BOOMER regressor with the non-decomposable squared error, 30 examples with two targets other than -1 and 1 (probe 0 in checks/p11.py): the derivatives are those of targets with an absolute value of 1. The repair changes the recorded outputs of existing tests.')
known('P11',r'probe1:newton-step-partial-fixed','BOOMER classifier with a non-decomposable loss and partial-fixed heads (probe 1 in checks/p11.py): if the selected outputs are not in increasing order of their indices, coefficients of other pairs of outputs are used. The repair changes the recorded outputs of test_non_decomposable_partial_fixed_heads.')
known('P11',r'probe2:irep-applied-to-other-examples','BOOMER regressor with IREP (probe 2 in checks/p11.py): after a rule has been considered for pruning, it is applied to the examples that satisfy all but its last original condition. The repair changes the recorded outputs of 79 existing tests.')
known('P11',r'probe3:label-binning-ignored','BOOMER classifier with a decomposable loss, complete heads and label_binning=equal-width (probe 3 in checks/p11.py): label binning is only used for the default rule (CompleteHeadConfig creates the rule evaluation of other rules without it). The repair (two lines) changes the recorded output of test_decomposable_complete_heads_equal_width_label_binning')
known('P11',r'probe4:label-binning-of-other-outputs','BOOMER classifier with partial heads and label_binning=equal-width (probe 4 in checks/p11.py): the statistics of the first outputs are aggregated instead of those of the outputs that have been selected. The repair changes the recorded output of test_decomposable_partial_fixed_heads_equal_width_label_binning')
known('P16',r'probe0:prefix-of-label-vector','BOOMER classifier with isotonic joint probability calibration, eight examples with the label vectors {0} and {0,1} (probe 0 in checks/p16.py): an example counts as one of a label vector that is a prefix of its own. The repair changes the recorded outputs of eight existing tests.')
fixed('P06','a9768fa','copies of a list of conditions had a wrong number of NOMINAL_NEQ conditions (beam search models were corrupted)')
fixed('P06','093f752','missing values of ordinal/nominal features satisfied conditions at prediction time')
fixed('P01','cc58e98','thread index 1 was used without multi-threading support (out-of-bounds)')
fixed('P01','380e9af','specifying nominal without ordinal feature indices (or vice versa) failed')
fixed('P05','27bf118','explicitly stored zeros were lost when the sparse value is not zero and the matrix is converted into a dense one')
fixed('P01','ff86bf2','feature sampling of a single feature sampled nothing / undefined logarithm')
fixed('P01','ddb7a88','sparse matrices without any stored element were rejected')
fixed('P01','f216aca','outputs that are sampled without replacement were not sorted: wrong statistics were updated')
fixed('P12','a24b831','examples with missing values were counted as covered')
fixed('P12','e988796','beam search did not terminate if refinements do not affect the coverage')
fixed('P01','57000b4','thresholds of binned features exceeded the allocated memory')
fixed('P01','2934119','non-existing thresholds of binned features were accessed')
fixed('P11','649f13f','L1 regularization increased scores instead of shrinking them')
fixed('P01','19861d9','label binning with negative and positive criteria wrote past the allocated bins')
fixed('P01','7a455f6','confusion matrices were allocated for the number of examples instead of labels')
fixed('P01','81816c2','heads of rules in a beam were not sorted: wrong statistics were updated')
fixed('P01','14cabed','uninitialised parameter of pre-pruning')
fixed('P15','f50a17a','peak lift function: wrong sign beyond the peak, out-of-bounds access')
fixed('P01','f2cfff5','hash/equality of rows of sparse label matrices read beyond the rows')
fixed('P01','173e293','isotonic calibration without any bins read out of bounds, 0/0 without sparse scores')
fixed('P16','3883447','the mean of the last bins with equal thresholds was dropped')
fixed('P11','6d97a12','evaluation of the non-decomposable squared error treated regression targets as binary labels')
fixed('P08','0cda87b','incremental predictors accessed freed memory (query matrix, label space, calibration models)')
fixed('P18','58460fe','predict_proba_incrementally recursed endlessly if not supported')
fixed('P08','1ac873f','predictions obtained incrementally were overwritten by later steps')
fixed('P05','e42bda3','explicitly stored zeros of sparse label matrices were relevant labels; duplicates and unsorted indices')
fixed('P05','68461d2','numerical features of sparse matrices were considered sparse because of missing values')
fixed('P02','5d2d60b','data race on the sum of uncovered weights of SeCo: models depended on the schedule')
fixed('P05','92eef3a','duplicates and unsorted indices of sparse feature matrices')
fixed('P11','b13ed97','partial heads of default rules were not sorted: statistics in sparse matrices were updated wrongly')
fixed('P08','13f78a5','incremental predictors accessed freed memory after the learner had been deleted or trained again')
fixed('P07','fd97a43','binary_predictor=auto used the output-wise predictor, also for non-decomposable losses')
fixed('P11','e948ac1','missing values of nominal features were subtracted twice after a condition on the feature')
fixed('P11','bb3a34d','sparse statistics: losses of examples were wrong if outputs were predicted for in another order')
known('P13',r'probe0:stratified-sample-too-small','BOOMER classifier with stratified-example-wise{sample_size=0.1,min_samples=15} and 20 examples (probe 0 in checks/p13.py): 3 examples are sampled; stratified instance sampling considers min_samples and max_samples only for breaking ties between strata. A repair has to redistribute samples between strata.')
known('P21',r'probe0:missing-value','dense ARFF file with a missing value (probe 0 in checks/p21.py): "?" is loaded as 0 instead of NaN. The repair changes the recorded outputs of four existing tests.')
known('P21',r'probe1:regression-output','ARFF file with numerical outputs 300.5 and -1.25 (probe 1 in checks/p21.py): the outputs are converted to 8 bit integers (44 and 255). The repair changes the recorded outputs of existing tests.')
fixed('P13','94eca72','min_samples and max_samples were ignored by feature sampling with the default sample size')
fixed('P21','7ed66a7','trailing rows and columns without values of sparse ARFF files were lost, which shifted features into outputs')
fixed('P21','2e9eacf','files without XML file whose @relation declares a negative number of outputs (as written by the testbed itself) were loaded without outputs')
fixed('P19','eb02323','predefined cross validation folds together with one-hot encoding failed')
fixed('P18','6cbf1b7','sample sizes that are NaN or that are rounded to an invalid 32 bit value aborted the process; NaN was accepted for several options')
fixed('P18','de784a8','the documented value "auto" was rejected for several parameters')
fixed('P18','a14e639','a different number of rows in X and Y was accepted (out-of-bounds reads)')
fixed('P18','994987b','ordinal and nominal feature indices that are out of range were accepted (out-of-bounds writes)')
fixed('P18','9097f35','the parameter random_state was ignored by BoomerRegressor')
known('P18',r'probe0:crash:.*','BOOMER classifier with a non-decomposable loss and l2_regularization_weight=0 (probe 0 in checks/p18.py): the system of linear equations is singular, the error reported by LAPACK is thrown in a parallel region and the process aborts. A repair has to decide which scores to predict in such cases.')
fixed('P20','b286a09','incremental evaluation exceeded the maximum model size and reported wrong model sizes')
fixed('P20','9c1039d','the sparse feature value was not passed on when predicting probabilities')
fixed('P20','65486d8','averaged results of incremental evaluations mixed different model sizes')
fixed('P20','d03b7a2','writing label vectors failed for examples without relevant labels')
fixed('P20','0215022','thresholds and probabilities were swapped in CSV files of calibration models')
fixed('P20','cbb6951','the bins of calibration models were written repeatedly')
fixed('P20','ee6e3c5','prediction characteristics of incremental evaluations could not be written to CSV files')
fixed('P20','198f98c','empty label vectors had indices of a floating point type, so that writing them to files failed')
known('P12',r'probe0:better-condition','BOOMER classifier, 25 examples with two negative numerical features (probe 0 in checks/p12.py): a numerical feature is dropped after a condition x > t, if the k-th of n values equals the (n - k)-th one instead of the last one. The repair changes the recorded outputs of 23 existing tests.')
known('P12',r'probe1:better-condition','BOOMER classifier, 25 examples with two nominal features (probe 1 in checks/p12.py): a nominal feature is not considered any longer after a condition has excluded its most frequent value.')
known('P15',r'probe0:stopped-too-early','SeCo classifier, 13 examples and one label, precision heuristic (probe 0 in checks/p15.py): covering a label decreases the sum of uncovered labels even if it does not differ from the majority, so that learning stops with labels left uncovered. The repair changes the recorded outputs of existing tests.')
known('P17',r'probe0:state-includes-removed-rules','BOOMER classifier with post-pruning that removes unused rules (probe 0 in checks/p17.py): the training state still includes the predictions of the rules that have been removed, when it is used for calibration or post-optimization.')
known('P17',r'probe1:kept-rules-not-restored','BOOMER classifier, 20 examples with one feature, instance sampling and sequential post-optimization (probe 1 in checks/p17.py): if no other rule can be found, the rule is kept, but the training state does not include its predictions any longer. The repair changes the recorded outputs of test_sequential_post_optimization (SeCo).')
fixed('P15','b9b10be','the heuristic "accuracy" considered labels whose majority is positive as errors if they are not covered')
open('/verif/known_findings.jsonl','w').write(''.join(json.dumps(k)+'\n' for k in K))
