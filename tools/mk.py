"""Writes properties.jsonl, MANIFEST.json and known_findings.jsonl from the tables below (a property is claimed iff checks/pNN.py exists)."""
import json
import subprocess
from pathlib import Path

V = Path(__file__).resolve().parent.parent
C = 'cpp/subprojects/common/src/mlrl/common/'
B = 'cpp/subprojects/boosting/src/mlrl/boosting/'
S = 'cpp/subprojects/seco/src/mlrl/seco/'
PY = 'python/subprojects/common/mlrl/common/'
T = 'python/subprojects/testbed/mlrl/testbed/'
RUNS = 'every data set, configuration and call sequence'

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms [(name, where)], technique, level note
P = [
    ('P01', 'Memory safety and absence of undefined behaviour',
     'Training, predicting, incremental prediction, model inspection and (un)pickling with any valid data set and '
     'configuration never reads or writes memory out of bounds, uses freed or uninitialised objects in a way the '
     'sanitizers can see, or executes undefined behaviour, and never aborts the process.',
     ['inputs', 'configurations', 'histories'], RUNS + ' accepted by the public estimator classes',
     'Integration tests run un-instrumented on a dozen data sets; an out-of-bounds read that returns plausible data passes.',
     [C, B, S], [('views and matrices', 'cpp/subprojects/common/include/mlrl/common/data'), ('feature vectors', C + 'input'),
                 ('statistics', B + 'statistics'), ('sampling', C + 'sampling')],
     'ASan + UBSan + libstdc++ assertions under a randomized API workload',
     'Randomized workloads on an instrumented build of the three C++ libraries; detects the errors the sanitizers define on '
     'the executions explored.'),
    ('P02', 'No data races in multi-threaded training and prediction',
     'Whenever training or prediction uses several threads, no two threads access the same memory without synchronization '
     'with at least one of them writing.',
     ['schedules', 'inputs', 'configurations'], 'every schedule of every parallel region, for every input',
     'Tests run each configuration once, with two threads and no race detector; most racy schedules still give the expected '
     'output.',
     [C + 'rule_refinement/rule_refinement_statistics_based.cpp', C + 'rule_induction/rule_induction_common.hpp',
      'cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp'],
     [('parallel refinement search', C + 'rule_refinement/rule_refinement_statistics_based.cpp'),
      ('parallel statistic update', C + 'rule_induction/rule_induction_common.hpp'),
      ('parallel prediction', 'cpp/subprojects/common/include/mlrl/common/prediction')],
     'ThreadSanitizer on an instrumented fork/join runtime, with seeded schedule perturbation',
     'Happens-before race detection on the executions explored; the OpenMP runtime is replaced by an instrumented one.'),
    ('P03', 'Results do not depend on the number of threads or the schedule',
     'For a fixed data set, configuration and seed, the learned model and all predictions are identical, no matter how '
     'many threads are used for refinement search, statistic updates and prediction and how they are scheduled.',
     ['schedules', 'inputs', 'configurations'], 'every schedule and number of threads',
     'Tests compare the output of single runs with a recorded output on one schedule.',
     [C + 'rule_refinement', C + 'multi_threading', 'cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp'],
     [('reduction of the refinements that were found by threads', C + 'rule_refinement/rule_refinement_statistics_based.cpp'),
      ('per-thread prediction state', 'cpp/subprojects/common/include/mlrl/common/prediction')],
     'differential monitor: single-threaded reference run vs. runs on a scheduler that injects seeded delays and orders',
     'Seeded schedule exploration through a replacement OpenMP runtime; compares complete models and predictions.'),
    ('P04', 'Training and prediction are reproducible and have no side effects',
     'The same data, configuration and seed always give the same model and predictions, in a fresh process or after any '
     'history of other calls in the same process, also when estimators are re-fitted or cloned. Input arrays, parameters '
     'and already learned models are never modified by fitting other models or by predicting.',
     ['histories', 'inputs', 'configurations'], 'every history of calls that precedes or is interleaved with a call',
     'Each test is one short process with one estimator.',
     [C + 'random/rng.cpp', PY + 'rule_learners.py', PY + 'learners.py'],
     [('random number generation', C + 'random'), ('estimator state', PY + 'rule_learners.py')],
     'differential history monitor with hashes of inputs, models and predictions',
     'Compares runs in different histories and processes on randomized workloads.'),
    ('P05', 'Results do not depend on how matrices are represented',
     'Learned models and predictions depend only on the values of features, labels and scores, and not on whether they are '
     'given as C- or Fortran-contiguous arrays, CSR, CSC, COO or LIL matrices, with which data types, or which feature, output '
     'and prediction formats are used internally (apart from stratified sampling, where the order of equally frequent label vectors '
     'may depend on the representation of the labels).',
     ['inputs', 'configurations'], 'every pair of representations of the same data',
     'Tests compare recorded outputs of a few files that are always loaded the same way.',
     [PY + 'rule_learners.py', PY + 'arrays.py', C + 'input', C + 'iterator'],
     [('format decision and conversion', PY + 'rule_learners.py'), ('dense and sparse feature vectors', C + 'input'),
      ('label matrices', C + 'input/label_matrix_csr.cpp')],
     'differential monitor across representations of identical data',
     'Randomized data; equality of models and predictions between representations.'),
    ('P06', 'Predictions are exactly what the learned rules say',
     'For every query example, the predicted scores are the sum of the heads of all rules that cover it and, for decision '
     'lists, a label is decided by the first covering rule that predicts for it, with the default rule as a fallback. '
     'A rule covers an example iff all of its conditions hold; a missing value satisfies no condition.',
     ['inputs', 'configurations', 'histories'], 'every model, every query example and every limit on the number of rules',
     'Tests compare a few recorded predictions; most conditions are never evaluated at their boundaries, with missing values '
     'or on sparse rows.',
     [C + 'model/body_conjunctive.cpp', C + 'model/rule_list.cpp', B + 'prediction/predictor_score_output_wise.cpp',
      S + 'prediction/predictor_binary_output_wise.cpp'],
     [('coverage test', C + 'model/body_conjunctive.cpp'), ('score aggregation', B + 'prediction'),
      ('decision list', S + 'prediction')],
     'online oracle: reference interpreter of the visited rules vs. real predictions',
     'Randomized models and queries, including values at and next to thresholds and missing values.'),
    ('P07', 'Labels and probabilities are derived from scores as documented',
     'Predicted labels and probabilities of boosted models are the ones the chosen predictor is documented to compute from '
     'the scores: thresholded scores or probabilities, the closest known label vector, the vector that maximizes the expected '
     'F1-measure, logistic probabilities, or marginals over known label vectors. Probabilities are within [0, 1].',
     ['inputs', 'configurations'], 'every model, query and combination of predictors',
     'Tests compare a few recorded evaluation results, which are insensitive to single predictions.',
     [B + 'prediction', B + 'losses'],
     [('binary predictors', B + 'prediction/transformation_binary_output_wise.cpp'),
      ('label-vector based predictors', B + 'prediction/transformation_binary_gfm.cpp'),
      ('probability predictors', B + 'prediction/transformation_probability_marginalized.cpp')],
     'online oracle: reference transformation of observed scores vs. real predictions',
     'Randomized models and queries; ties within 1e-9 accept either result.'),
    ('P08', 'Incremental prediction equals prediction with a limited number of rules',
     'After an incremental predictor has used its first k rules, its scores, probabilities and labels are identical to '
     'those of a non-incremental prediction that is limited to k rules, for every sequence of step sizes, and it reports '
     'exactly the rules that remain.',
     ['histories', 'inputs', 'configurations'], 'every sequence of steps, predictor and model',
     'Tests evaluate a few steps of a few models through rounded evaluation measures.',
     ['cpp/subprojects/common/include/mlrl/common/prediction', B + 'prediction', S + 'prediction'],
     [('incremental predictors', 'cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp')],
     'differential trace monitor over random step sequences',
     'Randomized step sequences, compared after each step.'),
    ('P09', 'Models survive serialization unchanged',
     'A model that is pickled and unpickled, any number of times and also in another process, has the same rules, '
     'calibration models and meta data and gives the same predictions as the original.',
     ['histories', 'inputs', 'configurations'], 'every fitted model',
     'Tests round-trip a handful of models and compare rounded evaluation results.',
     [PY + 'cython', PY + 'rule_learners.py'],
     [('model state', PY + 'cython/rule_model.pyx'), ('output space state', PY + 'cython/output_space_info.pyx'),
      ('calibration state', PY + 'cython/probability_calibration.pyx')],
     'round-trip monitor (same and fresh process)',
     'Randomized models; bit-identical rules and predictions.'),
    ('P10', 'Learned models obey the configured structural constraints',
     'The number of rules, conditions per rule, covered examples per rule, predicted outputs per head and kinds of '
     'comparison used for each kind of feature never exceed what the configuration allows, and heads hold distinct, valid '
     'output indices and finite scores. With feature binning, thresholds separate bins of equal width, or bins with the '
     'required number of values.',
     ['inputs', 'configurations'], 'every data set and configuration',
     'Tests inspect a few models, with one constraint at a time.',
     [C + 'rule_induction', B + 'rule_evaluation', C + 'stopping'],
     [('rule induction parameters', C + 'rule_induction/rule_induction_top_down_greedy.cpp'),
      ('head types', B + 'rule_evaluation')],
     'invariant monitor over the visited rules and the training trace',
     'Randomized configurations.'),
    ('P11', 'Heads are the regularized optimum and the training state is consistent',
     'The scores of every boosted rule are the regularized Newton step for the examples it covers, given the predictions of '
     'the preceding rules, times the shrinkage (label binning: the joint Newton step of all outputs in a bin). At any time during training, the loss the learner observes is the loss of '
     'the predictions of the rules learned so far.',
     ['inputs', 'configurations', 'histories'], 'every rule of every training run',
     'Tests compare rounded scores of a few models against recorded ones.',
     [B + 'rule_evaluation', B + 'statistics', B + 'losses', B + 'post_processing'],
     [('rule evaluation', B + 'rule_evaluation'), ('gradients and Hessians', B + 'losses'), ('statistics', B + 'statistics')],
     'offline checker of the training trace against a reference implementation of the losses and Newton steps',
     'Float64 re-computation with tolerance 1e-6; every rule of randomized runs.'),
    ('P12', 'Each added condition is the best one that is available',
     'Among all conditions on the sampled features that keep the required coverage, greedy rule induction adds one whose '
     'resulting rule has the best quality, and stops only if no condition improves the rule or a limit is reached. Thresholds lie midway between adjacent values.',
     ['inputs', 'configurations'], 'every step of every greedy search',
     'Tests record final rules; a search that misses the optimum but finds a good condition gives plausible results.',
     [C + 'rule_refinement', C + 'rule_induction', C + 'input'],
     [('refinement search', C + 'rule_refinement'), ('filtering of feature vectors', C + 'input')],
     'offline checker: exhaustive re-enumeration of the candidates of each traced refinement',
     'All candidate conditions of each observed step are enumerated; ties accepted.'),
    ('P13', 'Sampling and holdout sets respect their guarantees',
     'Every sample of examples, features and outputs has exactly the configured size and multiplicities, contains only '
     'eligible members (never examples of the holdout set), and stratified samples represent every label (combination) '
     'proportionally.',
     ['histories', 'inputs', 'configurations'], 'every sample drawn in every training run',
     'Tests see sampling only through its effect on recorded models.',
     [C + 'sampling'],
     [('instance sampling', C + 'sampling/stratified_sampling_output_wise.cpp'),
      ('holdout', C + 'sampling/partition_sampling_bi_random.cpp'),
      ('feature and output sampling', C + 'sampling/index_sampling.hpp')],
     'online monitor of every sample and partition in the training trace',
     'All samples of randomized runs are checked against the sampling contract.'),
    ('P14', 'Stopping and global pruning decisions follow from observed quality',
     'Training stops exactly when the maximum number of rules is reached, no more rule can be found or early stopping '
     'is triggered by the measured loss. Post-pruning keeps the number of rules whose measured loss is '
     'best among those it considers, and the rules that are used for prediction are exactly the ones that are kept.',
     ['histories', 'inputs', 'configurations'], 'every sequence of measured losses',
     'Tests cover a few histories of losses.',
     [C + 'stopping'], [('pre-pruning', C + 'stopping/global_pruning_pre.cpp'), ('post-pruning', C + 'stopping/global_pruning_post.cpp')],
     'trace checker: reference automaton of the stopping criteria on the traced losses',
     'Randomized parameters; the loss history is traced and also recomputed from the rules.'),
    ('P15', 'Separate-and-conquer covers the examples and optimizes its heuristic',
     'Each rule of a decision list predicts the opposite of the majority. Each condition that is added to it and its head have '
     'the best heuristic value times lift, as computed from the labels that are not yet covered, among all alternatives. '
     'The list ends with a default rule that predicts the majority of each label, and no more rules are learned once all labels '
     'that differ from the majority are covered.',
     ['inputs', 'configurations', 'histories'], 'every rule of every decision list',
     'Tests compare recorded lists of a few data sets.',
     [S + 'rule_evaluation', S + 'heuristics', S + 'lift_functions', S + 'statistics', S + 'stopping'],
     [('heuristics', S + 'heuristics'), ('lift functions', S + 'lift_functions'), ('coverage', S + 'data/matrix_coverage_dense.cpp')],
     'trace checker with a reference implementation of confusion matrices, heuristics and lift functions',
     'Randomized data and heuristics; enumerates candidates of each observed step.'),
    ('P16', 'Calibrated probabilities are monotone, valid and fitted to the data',
     'Isotonic calibration models have increasing thresholds and non-decreasing probabilities within [0, 1], which are '
     'averages of the observed frequencies, and calibrated predictions are the interpolation they define.',
     ['inputs', 'configurations'], 'every fitted calibration model',
     'Tests compare a few recorded calibration models.',
     [C + 'prediction/probability_calibration_isotonic.cpp', B + 'prediction/probability_calibration_isotonic.cpp'],
     [('isotonic regression', C + 'prediction/probability_calibration_isotonic.cpp')],
     'online oracle: reference isotonic fit on observed scores',
     'Randomized models; monotonicity, range, mass conservation and interpolation are checked.'),
    ('P17', 'Post-optimization keeps the model consistent',
     'Sequential post-optimization replaces each rule by one learned in the context of all others: the number of rules, '
     'the default rule, and the consistency between the training state and the rules are preserved, and removing unused '
     'rules never changes predictions.',
     ['histories', 'inputs', 'configurations'], 'every number of iterations and history',
     'Tests compare recorded models of two configurations.',
     [C + 'post_optimization'], [('sequential re-induction', C + 'post_optimization/post_optimization_sequential.cpp'),
                                ('unused rule removal', C + 'post_optimization/post_optimization_unused_rule_removal.cpp')],
     'trace checker: conservation of loss between traced training state and final rules',
     'Randomized runs; tolerance 1e-6.'),
    ('P18', 'Invalid parameters and inputs are rejected before they take effect',
     'A parameter value that is outside its documented range, an unknown option or an incompatible input raises a '
     'Python exception that names the problem; it never crashes, hangs or silently trains with another value, and the '
     'estimator remains usable afterwards.',
     ['inputs', 'configurations', 'fault_sequences'], 'every parameter value and malformed input',
     'No existing test passes an invalid value.',
     [PY + 'config.py', PY + 'options.py', PY + 'cython', 'cpp/subprojects/common/include/mlrl/common/util/validation.hpp'],
     [('range assertions', 'cpp/subprojects/common/include/mlrl/common/util/validation.hpp'), ('option parsing', PY + 'options.py')],
     'fault-injecting API monitor with a table of documented ranges',
     'Boundary values of each documented parameter, accepted and rejected side.'),
    ('P19', 'Train/test splits and folds partition the data',
     'Every split of a data set into training and test data or folds is a partition: each example is used for testing exactly '
     'once (cross validation) or in exactly one of the sets, features, labels and meta data stay aligned, '
     'sizes follow the configuration, and the split depends only on the seed.',
     ['inputs', 'configurations'], 'every data set, size and number of folds',
     'Tests run a few splits and look at aggregated evaluation results.',
     [T + 'data_splitting.py', T + 'data.py'], [('splitters', T + 'data_splitting.py')],
     'exactly-once monitor on tagged examples',
     'Every example carries a unique tag in its features and outputs; tags are counted after splitting.'),
    ('P20', 'Reported evaluation results are the measures of the actual predictions',
     'The evaluation results that are printed or written are the documented measures of the predictions of each fold, '
     'averaged over folds, and predictions, ground truth and models that are written to files are the actual ones.',
     ['inputs', 'configurations'], 'every set of predictions',
     'Tests compare recorded text output of a few experiments.',
     [T + 'evaluation.py', T + 'predictions.py', T + 'models.py'],
     [('evaluation', T + 'evaluation.py'), ('output', T + 'output_writer.py')],
     'online oracle: independent re-implementation of the measures on captured predictions',
     'Randomized predictions in dense and sparse representations.'),
    ('P21', 'Data sets and models survive being written to and read from files',
     'A data set that is saved and loaded again has the same feature values, outputs, attribute names and types, in '
     'dense and sparse form, and a model or parameter setting that is stored is loaded unchanged.',
     ['inputs', 'histories'], 'every data set and fold',
     'Tests load a fixed set of well-formed files.',
     [T + 'data.py', T + 'persistence.py', T + 'parameters.py'],
     [('ARFF and XML I/O', T + 'data.py'), ('model persistence', T + 'persistence.py')],
     'round-trip monitor on scratch files',
     'Randomized data sets.'),
]

NOT_BUILT = 'The check of this property has not been built yet.'


def main():
    schema = []
    for pid, title, st, over, q, why, files, mech, tech, note in P:
        schema.append(dict(id=pid, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                           anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
        assert len(title) <= 80, title
    (V / 'properties.jsonl').write_text(''.join(json.dumps(s) + '\n' for s in schema))
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.split('\n')
    hooks = [l.split()[0] for l in log if 'hook' in l.lower() and ' fix:' not in l]
    checks, na = [], []
    for pid, title, st, over, q, why, files, mech, tech, note in P:
        if (V / 'checks' / f'{pid.lower()}.py').exists():
            checks.append(dict(property=pid, quick_cmd=f'./check.sh {pid} quick', thorough_cmd=f'./check.sh {pid} thorough',
                               evidence_file=f'evidence/{pid}.json', technique=tech, level='exploration', level_note=note))
        else:
            na.append(dict(property=pid, reason=NOT_BUILT))
    man = dict(version=1, setup_cmd='./setup.sh',
               hooks=dict(guard='MLRL_VERIF_HOOKS', source_commits=hooks,
                          enable='lib/vbuild.py compiles the C++ libraries and Cython modules of /repo out of tree into '
                                 '/verif/.build with -DMLRL_VERIF_HOOKS and links harness/hooks.cpp'),
               checks=checks, not_applicable=na)
    (V / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')


main()
