"""Single source of properties.jsonl and MANIFEST.json (python3 tools/registry.py rewrites both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, level=level))


MC = "bounded-exhaustive exploration of the real code against a reference model"

prop("C01", "Discrete-action OPE estimators compute exactly their published definitions",
     "For every logged bandit dataset, evaluation policy, position assignment and hyper-parameter, the policy value returned by each "
     "discrete-action estimator (replay method, IPW with clipping, self-normalised IPW, direct method, DR with clipping, self-normalised DR, "
     "Switch-DR, DR with optimistic shrinkage, sub-Gaussian IPW and DR, balanced IPW) equals the mean over rounds of its published per-round "
     "formula. True and estimated propensities are used exactly as the estimator's setting says, and only the distribution and reward-model "
     "slice at each round's own position enters. The result does not depend on earlier calls and the inputs are left unmodified.",
     ["inputs", "configurations", "histories"],
     "all logs over a finite per-round alphabet up to a length bound, all estimators x hyper-parameters, all position assignments, plus a ladder of sizes",
     "tests evaluate one or two random datasets per estimator and mostly check bounds or special cases; weight/threshold ties, mixed positions, zero weights and "
     "estimated propensities are a product space they sample once",
     ["obp/ope/estimators.py", "obp/utils.py"],
     [("per-round estimate of each estimator class", "obp/ope/estimators.py:_estimate_round_rewards"),
      ("averaging and propensity selection", "obp/ope/estimators.py:estimate_policy_value")],
     ["estimate_policy_value of each estimator"], MC,
     "Exhaustive over all logs up to 3 (thorough 4) rounds over the stated alphabet and all listed hyper-parameters; beyond the bound only the fixed size ladder.")

prop("C02", "Importance-weighting estimators are exactly unbiased under true propensities",
     "When the recorded propensities are the true logging probabilities and the logging policies cover the evaluation policy, the average of the estimate "
     "over every possible log, weighted by the probability of that log, equals the true value of the evaluation policy. This holds for IPW and for DR with "
     "any reward model, for naive and balanced multi-logger IPW and DR, for marginalised IPW when rewards depend on actions only through the embedding, for slate IPS under any reward structure, for independent IPS under independent rewards, and "
     "for reward-interaction IPS and cascade DR under cascade rewards.",
     ["inputs", "histories"],
     "all logs (context, action/slate, reward outcomes) of a small finite bandit world, for several worlds, reward models and sample sizes",
     "tests compare one random log with the ground truth within a wide tolerance, which cannot separate bias from variance",
     ["obp/ope/estimators.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_slate.py"],
     [("importance weights", "obp/ope/estimators.py:InverseProbabilityWeighting"),
      ("control variate", "obp/ope/estimators.py:DoublyRobust"),
      ("multi-logger weights", "obp/ope/estimators_multi.py"), ("slate weights", "obp/ope/estimators_slate.py")],
     ["estimate_policy_value averaged over the complete log space"], "exhaustive enumeration of all logs of finite bandit worlds, exact expectation compared with the true value",
     "Complete over the log space of each enumerated world; worlds are small (<=2 contexts, <=3 actions, <=3 positions, <=3 rounds).")

prop("C03", "Bootstrap confidence intervals are the percentiles of resampled round means",
     "For every estimator family, level and number of resamples, the returned interval is the alpha/2 and 1-alpha/2 percentile of the means of with-replacement resamples of the "
     "same per-round (per-slate for slate estimators) estimates that define the point estimate (marginalised IPW: without embedding selection), the reported mean is the mean of those resampled means, and "
     "the keys name the confidence level. Lower <= upper, both within the range of per-round estimates, and the result is a function of the data and the seed only.",
     ["inputs", "schedules", "configurations"],
     "all resampling outcomes for small n and few resamples, all estimators of all families, several alphas and seeds",
     "tests only check that keys exist and lower <= mean <= upper for one random seed",
     ["obp/utils.py", "obp/ope/estimators.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_slate.py", "obp/ope/estimators_continuous.py", "obp/ope/estimators_embed.py", "obp/ope/estimators_tuning.py"],
     [("bootstrap", "obp/utils.py:estimate_confidence_interval_by_bootstrap"), ("interval methods", "estimate_interval of each estimator")],
     ["estimate_interval"], "enumeration of all resampling choices through a scripted random source",
     "Every index sequence a resampler can draw for n<=3 and B<=2 (thorough n<=4,B<=2 / n<=3,B<=3) is enumerated; seeds are also replayed for determinism.")

prop("C04", "Multi-logger estimators compute their definitions for every stratification",
     "For every log stratified by logging policy, the naive, balanced and weighted multi-logger IPW and DR estimates equal their published formulas: naive uses each round's "
     "own logging propensity, balanced uses the average propensity, and weighted uses stratum weights inversely proportional to the (positive) within-stratum variance of the per-round terms. "
     "Clipping, estimated propensities and per-round positions behave as for the single-logger estimators, and reordering the rounds does not change the estimate.",
     ["inputs", "configurations"], "all stratified logs up to a length bound over a finite alphabet, all hyper-parameters",
     "tests use one synthetic dataset and check only loose bounds",
     ["obp/ope/estimators_multi.py"], [("per-round estimates", "obp/ope/estimators_multi.py:_estimate_round_rewards")],
     ["estimate_policy_value"], MC, "Exhaustive over logs up to 4 rounds / 2-3 strata over the stated alphabet.")

prop("C05", "Slate estimators compute their definitions for every slate log",
     "For every slate log, the standard, independent and reward-interaction IPS estimates, their self-normalised versions and the cascade doubly robust estimate equal their published formulas, "
     "with weights built from the matching kind of propensity and totals averaged over the number of distinct slates. "
     "The IPS estimates depend neither on row order nor on which non-negative integers label the slates; cascade DR uses weight one before the first position and the previous position's weight afterwards.",
     ["inputs", "configurations"], "all slate logs with up to 3 slates x 3 positions over finite propensity/reward alphabets, all row orders of small logs, label maps",
     "tests check a few synthetic logs against coarse intervals",
     ["obp/ope/estimators_slate.py", "obp/utils.py"], [("slate weights and normalisation", "obp/ope/estimators_slate.py")],
     ["estimate_policy_value"], MC, "Exhaustive within the stated alphabets; larger logs only via fixed ladder instances.")

prop("C06", "Continuous-action estimators compute their kernel definitions",
     "For every log of continuous actions, kernel and bandwidth, the kernelised IPW, self-normalised IPW and DR estimates equal their published kernel formulas, with each named kernel "
     "being the stated non-negative symmetric density, zero outside its support when compact. The inputs, whatever their numeric dtype, are left unmodified.",
     ["inputs", "configurations"], "all logs up to a length bound over a grid of actions, rewards, propensities and reward-model values; all kernels and bandwidths",
     "tests check one dataset per kernel against loose bounds",
     ["obp/ope/estimators_continuous.py"], [("kernels", "obp/ope/estimators_continuous.py:kernel_functions"), ("per-round estimates", "obp/ope/estimators_continuous.py:_estimate_round_rewards")],
     ["estimate_policy_value"], MC, "Exhaustive on the stated grid; kernels checked pointwise on a fine grid and by quadrature.")

prop("C07", "Marginalised IPW uses exactly the embedding marginals and the SLOPE pruning rule",
     "For every log with action embeddings, marginalised IPW (and its self-normalised version) weights each round by the ratio of the evaluation and logging policies' marginal probabilities of the observed embedding, "
     "computed from the given embedding distribution or from the fitted posterior over actions. With embedding selection, the value returned is that of the last "
     "embedding subset accepted by the stated interval-intersection rule, visiting subsets in decreasing order of their confidence width.",
     ["inputs", "configurations"], "all logs over small embedding spaces, positions, both pruning methods, all minimum dimensions",
     "tests check types and that estimates fall near the truth on one dataset",
     ["obp/ope/estimators_embed.py"], [("marginal weights", "obp/ope/estimators_embed.py:_estimate_round_rewards"), ("pruning", "obp/ope/estimators_embed.py:_estimate_with_exact_pruning")],
     ["estimate_policy_value"], MC, "Exhaustive over the stated embedding worlds.")

prop("C08", "Hyper-parameter tuning picks the candidate its criterion selects",
     "For every log and candidate set, a tuned estimator uses the candidate with the smallest estimated mean squared error, or the one the SLOPE rule selects, and its value and interval are those of the plain estimator with that hyper-parameter. "
     "The choice does not depend on the order of the candidate list, the candidate list is not modified, and the chosen hyper-parameter is one of the candidates.",
     ["inputs", "configurations", "histories"], "all candidate subsets/orders from a menu, both tuning methods, all tunable estimators, all logs of a menu",
     "tests check only that some candidate is selected on one dataset",
     ["obp/ope/estimators_tuning.py", "obp/ope/estimators.py", "obp/ope/helper.py"], [("tuning", "obp/ope/estimators_tuning.py:_tune_hyperparam"), ("mse estimate", "obp/ope/estimators.py:_estimate_mse_score")],
     ["estimate_policy_value", "estimate_interval", "best_hyperparam"], MC, "Exhaustive over candidate subsets and orders of the stated menus.")

prop("C09", "OPE front ends report exactly what the individual estimators report",
     "For every set of estimators and every evaluation policy, the estimated values, intervals, summaries and comparisons produced by the off-policy evaluation front ends (discrete, multi-logger, slate, continuous) "
     "are those of each estimator called on its own with its own inputs. Shared or per-estimator auxiliary inputs reach precisely the estimator they are meant for, and relative and squared errors are computed against the given ground truth.",
     ["inputs", "configurations", "histories"], "all subsets and orders of estimators, all forms (shared array / per-estimator dict) of the auxiliary inputs, both metrics",
     "tests use stub estimators with fixed values and a handful of combinations",
     ["obp/ope/meta.py", "obp/ope/meta_multi.py", "obp/ope/meta_slate.py", "obp/ope/meta_continuous.py"],
     [("input routing", "obp/ope/meta.py:_create_estimator_inputs")],
     ["estimate_policy_values", "estimate_intervals", "summarize_off_policy_estimates", "evaluate_performance_of_estimators", "summarize_estimators_comparison"], MC,
     "Exhaustive over estimator subsets and input forms of the stated menus.")

prop("C10", "Malformed logs and settings are rejected instead of silently evaluated",
     "Every estimator and front end raises ValueError or TypeError for arrays of the wrong type, dimension or mutually inconsistent length, action or position indices out of range, non-positive propensities, "
     "evaluation distributions that do not sum to one, missing inputs that the estimator needs, and hyper-parameters outside their documented range. "
     "The same call with only that fault repaired succeeds.",
     ["inputs", "configurations", "fault_sequences"], "all single faults (and pairs of faults) from a fault menu injected into every argument of every estimator and both of its entry points",
     "tests enumerate some faults for some estimators on one entry point; the full estimator x argument x fault product is not covered",
     ["obp/utils.py", "obp/ope/estimators.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_slate.py", "obp/ope/estimators_continuous.py", "obp/ope/estimators_embed.py"],
     [("validators", "obp/utils.py:check_ope_inputs")], ["estimate_policy_value", "estimate_interval", "constructors"],
     "systematic fault enumeration over every argument of every entry point", "Exhaustive over the fault menu (all singles; pairs in thorough).", level="fault_enumeration")

prop("C11", "Context-free online policies follow their decision rule in every history",
     "In every history of selections and reward updates, the random, epsilon-greedy and Bernoulli Thompson sampling policies keep per-action counts and reward statistics equal to those of the observations so far, refresh "
     "what they act on only at batch boundaries, and choose a list of distinct actions: the best by the current statistics, or a uniformly random list with probability epsilon (and while some action is unobserved), or the largest posterior draws. "
     "Re-initialising returns the policy to its initial state.",
     ["histories", "schedules", "configurations"], "all op sequences (select/update/initialise) up to a depth over small action sets, all batch sizes, all outcomes of the owned random source",
     "tests drive one short fixed history per policy",
     ["obp/policy/contextfree.py", "obp/policy/base.py"], [("select_action / update_params", "obp/policy/contextfree.py")],
     ["select_action", "update_params", "initialize", "compute_batch_action_dist"], "explicit-state exploration of all operation sequences of the real policy objects against a reference automaton",
     "Exhaustive over op sequences up to the stated depth and random outcomes of the scripted source.")

prop("C12", "Linear bandit policies act on the ridge solution of accepted observations",
     "In every history of updates, the linear epsilon-greedy, UCB and Thompson sampling policies choose actions from the per-action ridge-regression solution of exactly the observations accepted up to the last batch boundary, "
     "with the documented optimism bonus or posterior. The recursively maintained inverse equals the batch inverse, and re-initialising forgets all observations.",
     ["histories", "configurations", "schedules"], "all update sequences up to a depth over small contexts/actions/rewards, all batch sizes, scripted random source",
     "tests perform one update and compare shapes", ["obp/policy/linear.py", "obp/policy/base.py"],
     [("Sherman-Morrison update", "obp/policy/linear.py:update_params")], ["select_action"], "explicit-state exploration of all operation sequences against a batch ridge reference",
     "Exhaustive up to the stated depth.")

prop("C13", "Logistic bandit policies train each arm on exactly its own observations",
     "In every history of updates, the logistic epsilon-greedy, UCB and Thompson sampling policies update, at each batch boundary, each arm's Gaussian posterior by the Laplace approximation of the regularised logistic fit on exactly the contexts "
     "and 0/1 rewards observed for that arm since the previous boundary, and otherwise leave it unchanged. Lists of distinct actions are chosen by the documented score: predicted probability, optimistic score, or posterior samples that are independent across arms. "
     "Re-initialising forgets all observations.",
     ["histories", "configurations", "schedules"], "all update sequences up to a depth, all batch sizes, scripted random source",
     "tests check one batch", ["obp/policy/logistic.py", "obp/policy/base.py"], [("update_params", "obp/policy/logistic.py")], ["select_action"],
     "explicit-state exploration of all operation sequences against a reference model", "Exhaustive up to the stated depth.")

prop("C14", "The delayed-feedback simulator delivers every reward exactly once and on time",
     "For every sequence of rounds and every assignment of delays, the policy simulator feeds the policy each round's context, chosen action and reward exactly once, at the end of the first round at or after its due time and never earlier, and clearing the queue delivers "
     "everything still pending. Selected actions, observed rewards and the ground-truth and cumulative reward it reports agree with the rounds played. The exponential delay samplers return whole delays drawn at the documented scale, "
     "equal across actions unless weighted by the expected reward.",
     ["histories", "schedules", "configurations"], "all delay assignments and action choices for up to 4 rounds, all split points between stepping and clearing",
     "tests cover a few hand-written delay schedules", ["obp/simulator/simulator.py", "obp/simulator/delay_sampler.py"],
     [("delay queue", "obp/simulator/simulator.py:BanditPolicySimulator")], ["BanditPolicySimulator", "update_params calls seen by the policy", "ExponentialDelaySampler"],
     "exhaustive exploration of all delay schedules of the real simulator with a recording policy", "Exhaustive over delays {0..3} per round/action for up to 4 rounds.")

prop("C15", "Replay simulation updates the policy on exactly the matching rounds",
     "For every logged dataset and online policy, replaying the log selects an action for each round in order, updates the policy precisely on rounds whose logged action equals the policy's choice at that round's position, "
     "with that round's context and reward, and returns the one-hot action distribution of all choices. The simulated ground-truth value of a policy is the mean expected reward of the actions it takes at each round's position over independent runs that all start from "
     "the given policy state and feed every sampled reward back. The log (and, for the ground truth, the policy) is left unmodified.",
     ["histories", "inputs"], "all logs up to a length bound x all deterministic selection scripts, contextual and context-free policies",
     "the existing tests never run the function to completion", ["obp/simulator/replay.py", "obp/simulator/simulator.py"], [("run_bandit_replay", "obp/simulator/replay.py"), ("calc_ground_truth_policy_value", "obp/simulator/simulator.py")], ["returned action distribution and value", "policy update calls"],
     MC, "Exhaustive up to the stated bound.")

prop("C16", "Coefficient drift depends on the round index, not on how rounds are requested",
     "For every drift configuration, the sequence of coefficients produced for rounds 1..T is the same however the T rounds are split into requests. Within each interval the coefficients are the linear (or randomly sampled) blend of the two "
     "interval endpoints over the transition period, mixed with the base coefficients by the base weight, and constant elsewhere. Seasonal drift alternates between two endpoints.",
     ["histories", "configurations"], "all ways of splitting T rounds into requests, for all small intervals/transition settings",
     "tests request rounds in one or two chunkings", ["obp/simulator/coefficient_drifter.py"], [("interval bookkeeping", "obp/simulator/coefficient_drifter.py")], ["get_coefficients"],
     "exhaustive exploration of all request compositions of the real object", "All compositions of T<=10 (thorough 13) rounds for all listed configurations.")

prop("C17", "Environment simulators hand out each round consistently and exactly once",
     "For every request pattern, iterating or drawing batches from the environment simulator yields rounds whose context, expected rewards, rewards and delays belong together: expected rewards are the reward function at that context, each binary reward is a Bernoulli draw of its expected reward, delays come from the delay function. "
     "Every pass over a batch visits its rounds in order without repetition or loss, and identical seeds and request patterns give identical rounds.",
     ["histories", "configurations"], "all consumption patterns up to a depth", "tests iterate once", ["obp/simulator/simulator.py"], [("BanditEnvironmentSimulator / BanditRounds", "obp/simulator/simulator.py")],
     ["next_bandit_round_batch", "iteration"], MC, "Exhaustive over consumption patterns up to the stated depth.")

prop("C18", "Synthetic bandit logs are internally consistent and reproducible",
     "For every configuration of the synthetic dataset, the logged action was sampled from the reported behaviour policy, the reported propensity is that policy's probability of the logged action, every behaviour distribution is a proper distribution that gives zero to exactly the "
     "requested number of deficient actions (each set equally likely), and rewards have the declared type and reported mean. With several loggers every round belongs to a stratum of the requested share and uses that logger's policy, and the reported average policy mixes all of them; embeddings are drawn from the reported p(e|a) and determine the reward. "
     "Contexts, actions and noise use separate random numbers, further batches follow the same distribution, and the same seed reproduces the same log. Ground-truth values are the mean expected reward under the policy.",
     ["configurations", "inputs", "schedules"], "all configurations of a product menu (actions, dimensions, reward types, behaviour policies, temperature, deficient actions, embeddings, several loggers, continuous actions) and scripted random outcomes",
     "tests check shapes on a few configurations", ["obp/dataset/synthetic.py", "obp/dataset/synthetic_multi.py", "obp/dataset/synthetic_embed.py", "obp/dataset/synthetic_continuous.py"],
     [("obtain_batch_bandit_feedback", "obp/dataset/synthetic.py")], ["obtain_batch_bandit_feedback", "calc_ground_truth_policy_value"], MC, "Exhaustive over the configuration menu.")

prop("C19", "Sampling and probability helpers realise the distributions they are given",
     "For every matrix of action distributions and every outcome of the random source, sampling selects for each row the action whose cumulative interval contains the draw, so each action is drawn with exactly its probability and never with probability zero. "
     "Softmax rows are distributions ordered like their inputs, invariant to shifts and finite for any finite input, the sigmoid lies in [0,1] with complementary symmetry, and one-hot conversion is exact.",
     ["inputs", "schedules"], "all distributions on a grid x all draws on a finer grid including cell boundaries; grids of logits including extremes",
     "tests draw a few thousand samples and compare frequencies", ["obp/utils.py"], [("sample_action_fast", "obp/utils.py"), ("softmax/sigmoid", "obp/utils.py")], ["return values"],
     "exhaustive enumeration of distributions and scripted random outcomes", "Exhaustive on the stated grids.")

prop("C20", "Supervised-to-bandit reduction logs the classifier's own mixture policy",
     "For every multi-class dataset, label encoding and mixing weight, the logged action of each evaluation sample is drawn from alpha times the decision of the base classifier fitted on the training part plus (1-alpha) uniform, restricted to that round's non-deficient actions and renormalised, the propensity is that mixture's probability, the reward is one exactly "
     "when the action is the sample's class, and the ground-truth value of any policy is its mean probability of the true class.",
     ["inputs", "configurations", "schedules"], "all small label patterns and label encodings, mixing weights, deficient-action counts, scripted draws",
     "tests use one bundled dataset with labels 0..K-1", ["obp/dataset/multiclass.py"], [("obtain_batch_bandit_feedback", "obp/dataset/multiclass.py"), ("obtain_action_dist_by_eval_policy", "obp/dataset/multiclass.py")], ["returned feedback dict"], MC,
     "Exhaustive over the listed label patterns and settings.")

prop("C21", "Open Bandit Dataset feedback is a faithful, time-ordered view of the logs",
     "For every log file content, the loaded feedback lists the log in timestamp order with matching actions, zero-based positions, rewards, propensities and context, a test-size split keeps the earliest rows for training and the rest for testing without loss or overlap, "
     "bootstrap samples are draws of whole rows with replacement, and the on-policy value is the mean reward.",
     ["inputs", "configurations", "schedules"], "all small log files (row permutations, positions, split fractions) written to a scratch directory; scripted resampling",
     "tests use the bundled sample only", ["obp/dataset/real.py"], [("load_raw_data / obtain_batch_bandit_feedback", "obp/dataset/real.py")], ["returned feedback dict"], MC,
     "Exhaustive over listed permutations and fractions.")

prop("C22", "Slate logs report correct slate, position-wise and cascade propensities",
     "For every behaviour policy over small action sets, the reported slate, cascade and item-position propensities of each logged slate equal the probabilities obtained by enumerating all slates the sampling procedure can produce, and the same holds for the propensities reported for an evaluation policy. "
     "Expected slot rewards follow the declared structure at the round's own context, rewards are drawn with them through the click model (or truncated normal noise), "
     "ground-truth values equal the expectation over all slates and rewards, and rows are ordered by slate and position.",
     ["inputs", "configurations", "schedules"], "all logits patterns of a menu, all slates, factorizable or not, all reward structures",
     "tests compare a few entries", ["obp/dataset/synthetic_slate.py"], [("propensity computation", "obp/dataset/synthetic_slate.py")], ["obtain_batch_bandit_feedback", "obtain_pscore_given_evaluation_policy_logit", "calc_ground_truth_policy_value"],
     MC, "Exhaustive over all slates of up to 4 actions x 3 positions.")

prop("C23", "Reward models are cross-fitted without leakage and weighted as documented",
     "For every log, number of folds and fitting method, the estimated reward of each round is produced by a model that was not trained on that round, every round is predicted exactly once, separately per position, and the training features, targets and sample weights are those the documented fitting method prescribes. "
     "Predictions fill the (round, action, position) array in matching order.",
     ["inputs", "configurations"], "all small logs x fold counts x fitting methods x positions, with a recording base model",
     "tests only check shapes and accuracy", ["obp/ope/regression_model.py"], [("fit/predict/fit_predict", "obp/ope/regression_model.py:RegressionModel")], ["fit_predict", "training calls seen by the base model"], MC, "Exhaustive over the listed menus.")

prop("C24", "Estimated propensities and importance weights align with actions and rounds",
     "For every log, the estimated propensity of each round is the fitted classifier's probability of that round's own action, and the estimated importance weight is the classifier odds for evaluation versus logging, each produced out-of-fold when cross-fitting is used and per position. "
     "Training data contains exactly the logged rows (and evaluation-policy rows for importance weights) with the correct labels.",
     ["inputs", "configurations"], "all small logs x folds x positions with a recording classifier", "tests check shapes only", ["obp/ope/classification_model.py"],
     [("fit_predict", "obp/ope/classification_model.py")], ["fit_predict", "training calls seen by the base model"], MC, "Exhaustive over the listed menus.")

prop("C25", "Slate reward models follow the backward recursion of cascade DR",
     "For every slate log, the estimated value of each action at each position is produced by models fitted from the last position backwards, whose targets are the reward plus the next position's estimated value averaged under the evaluation policy, with the documented weights. "
     "Predictions are ordered by slate, position and action.",
     ["inputs", "configurations"], "all small slate logs x fitting methods with a recording base model", "tests check shapes and accuracy only",
     ["obp/ope/regression_model_slate.py"], [("fit/predict", "obp/ope/regression_model_slate.py")], ["fit_predict", "training calls seen by the base model"], MC, "Exhaustive over the listed menus.")

prop("C26", "Offline-learned policies are valid and consistent with their scores",
     "For every log, the offline learners hand each position's own contexts, actions and inverse-propensity-weighted rewards to the base model, and refitting forgets the earlier log. "
     "Scores are aligned with actions (an action never seen in training scores zero for the classifier-based learner), predicted lists are one-hot per position on a score-maximising action, "
     "choice probabilities are the softmax of the scores at the given temperature, and sampled rankings are the Gumbel-perturbed order of the scores, without repeated actions.",
     ["inputs", "configurations", "schedules"], "all small logs, list lengths, temperatures and grids of random draws, with recording and lookup-table base models",
     "tests check shapes and row sums on one fit", ["obp/policy/offline.py"], [("IPWLearner / QLearner", "obp/policy/offline.py")], ["fit", "predict", "predict_proba", "predict_score", "sample_action"], MC, "Exhaustive over the listed grids.")

prop("C27", "Neural policy learners optimise the documented off-policy objectives",
     "For every log, objective, solver, activation and layer shape, each mini-batch update of the neural policy learners (discrete and continuous actions) and of their reward models is a step of the chosen optimiser on the documented direct, importance-weighted, shrunk or doubly robust value estimate of that mini-batch (with the documented L2 and policy regularisation), "
     "every epoch uses each training round exactly once, early stopping holds out exactly the validation share, the learned policy stays finite and is a proper distribution (or an action inside the output space), sampled rankings follow the Gumbel-perturbed probabilities, and results are reproducible for a fixed seed. Training goes on while the loss improves by the tolerance and stops after the configured number of iterations without improvement.",
     ["inputs", "configurations", "schedules"], "all small logs x objectives x solvers x activations, every mini-batch order and validation split, menus of hyper-parameters", "tests check shapes and value ranges", ["obp/policy/offline.py", "obp/policy/offline_continuous.py"],
     [("training loop and gradient estimators", "obp/policy/offline.py:NNPolicyLearner"), ("training loop and gradient estimators", "obp/policy/offline_continuous.py:ContinuousNNPolicyLearner"), ("reward models", "QFuncEstimator, QFuncEstimatorForContinuousAction")],
     ["predict_proba", "predict", "sample_action", "q_func_estimator.predict"], MC, "Exhaustive over the listed menus; the stopping rule is covered by dedicated cases, which are known findings.")

prop("C28", "Built-in reward, behaviour and evaluation-policy functions compute their formulas",
     "For every context matrix, action representation and coefficients (fixed or varying by round), the library's reward functions return the documented bilinear polynomial value of each round and action, scaled by the degree, z-scored exactly when requested, and squashed to a probability for the logistic ones; the sparse ones keep a random subset of the declared size of the features. "
     "Behaviour and continuous-action functions likewise return their documented formula of each round's own context, and inputs are never modified.",
     ["inputs", "configurations", "schedules"], "all listed sizes (including coincidences of rounds and feature dimensions), coefficient shapes, and every random feature subset", "tests check shapes and ranges on one seed",
     ["obp/dataset/synthetic.py", "obp/dataset/synthetic_continuous.py"], [("reward functions", "obp/dataset/synthetic.py:_base_reward_function"), ("behaviour functions", "obp/dataset/synthetic.py:_base_behavior_policy_function"), ("continuous functions", "obp/dataset/synthetic_continuous.py")],
     ["returned arrays"], MC, "Exhaustive over the listed menus.")

prop("C29", "Bias estimates and high-confidence bounds compute their published formulas",
     "For every sample, confidence level and upper limit, the Hoeffding, empirical Bernstein and Student-t lower bounds and the bias estimate and its high-probability upper bound equal their published formulas, do not depend on the order of the sample, and reject confidence levels or limits outside their domain.",
     ["inputs", "configurations"], "all samples of up to five grid values x confidence levels x limits", "tests do not cover them directly", ["obp/ope/helper.py"],
     [("bounds", "obp/ope/helper.py")], ["returned bounds"], MC, "Exhaustive over the listed grid.")

prop("C30", "Nuisance models, learners, simulators and data generators reject malformed logs and settings",
     "Every regression model, importance-weight and propensity estimator, offline learner, replay or simulation function, online policy, environment and synthetic, multi-class or real dataset refuses, by raising, logged data that cannot be what it claims "
     "(wrong type or number of dimensions, lengths that disagree, actions or positions outside the sets a model or learner is declared for, non-positive propensities, evaluation distributions that do not sum to one, missing fields, contexts whose width is not the declared or fitted one) and settings outside their documented range, "
     "wherever in the data the fault lies; boundary values are accepted, the arguments of a rejected call are left alone, and a later well-formed call gives what it gives on a fresh object.",
     ["inputs", "configurations", "fault_sequences"],
     "every single fault of the menu at every entry, every proper subset of arguments with disagreeing lengths, all pairs of faults, every constructor setting at and beyond its limits", "tests sample one fault at the first entry of one argument",
     ["obp/utils.py", "obp/ope/regression_model.py", "obp/ope/regression_model_slate.py", "obp/ope/classification_model.py", "obp/policy", "obp/simulator", "obp/dataset"],
     [("log validation", "obp/utils.py:check_bandit_feedback_inputs"), ("setting validation", "__post_init__ of each class")], ["raised exceptions", "results of later calls"], MC,
     "Exhaustive over the fault menu within the listed sizes. Exception types are not judged. Not exercised because the code promises nothing: contexts given to Thompson-sampling and logistic policies, actions of a replayed log beyond the policy's, the log given to predict of the nuisance models.", level="fault_enumeration")

prop("C31", "Reusable objects answer from the arguments of the call, whatever was called before",
     "Every estimator, tuned estimator, nuisance model, offline learner, dataset generator function and reward or policy function gives, to a call with given arguments and seed, the answer a freshly built object gives to that call in a process that has done nothing else: "
     "earlier calls on the same object with other logs (of the same or another shape), calls of its other entry points, calls on other objects of the class in between, and logs whose arrays were overwritten in place since the last call leave no trace. Fitting again replaces the earlier fit (neural learners, which continue training, excepted), "
     "and no call changes its arguments.",
     ["histories", "inputs"],
     "all call sequences up to the depth over entry points x five argument forms (two logs of one shape, one of another, an array and the same array overwritten), another object of the class interleaved", "tests use one object for one log",
     ["obp/ope", "obp/policy/offline.py", "obp/dataset", "obp/utils.py"],
     [("estimation entry points", "estimate_policy_value / estimate_interval of each estimator"), ("tuned hyper-parameter", "obp/ope/estimators_tuning.py:best_hyperparam"), ("fit / predict / fit_predict", "obp/ope/regression_model.py, obp/ope/classification_model.py, obp/policy/offline.py")],
     ["returned values", "arguments after the call"], "exhaustive enumeration of call histories on real objects, compared with answers of pristine processes",
     "All histories of 2 calls over all entry points and argument forms and of 3 calls of the first entry point (thorough: one more call). Logs are fixed instances of 6-24 rounds.")

prop("C32", "Figures of policy value estimates show what the estimators report",
     "For every front end (discrete, multi-logger, slate, continuous), choice of estimators, log with or without positions, form of the auxiliary inputs and evaluation policy, the figure of estimates has exactly one bar per estimator, labelled with its name, whose height is the estimated policy value of that estimator with its own inputs and settings (tuned hyper-parameter, estimated propensities), "
     "divided by the on-policy value if the relative form is requested; the comparison of several policies has one panel per estimator, titled with its name, with one such bar per policy, labelled with the policy's name, whatever the numbers of estimators and policies. Every bar carries its confidence interval (slate: exactly the bootstrap interval reported for the seed; otherwise narrower for a lower confidence), "
     "and the figure is written to the requested file and nowhere else, only if a directory is given.",
     ["inputs", "configurations"],
     "all single estimators, ordered pairs and the full menu of each front end x input forms x logs x 1-3 policies x relative or not x saved or not", "tests only check that a file appears",
     ["obp/ope/meta.py", "obp/ope/meta_multi.py", "obp/ope/meta_slate.py", "obp/ope/meta_continuous.py"],
     [("figure of estimates", "visualize_off_policy_estimates"), ("comparison of policies", "visualize_off_policy_estimates_of_multiple_policies")], ["bars, labels, titles and intervals of the figure", "files written"], MC,
     "Exhaustive over the listed product. Marginalised IPW without embedding selection. The bar of a slate estimator may be its estimate or the mean reported with its interval.")

CLAIMED = None  # filled from mc/checks


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py")):
            checks.append(dict(property=p["id"], quick_cmd="bash run.sh %s" % p["id"],
                               thorough_cmd="VERIF_TIER=thorough bash run.sh %s" % p["id"],
                               technique=p["technique"], level=p["level"], level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=p.get("na", "check not built yet")))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
             notes="All checks explore the real code of /repo exhaustively within stated bounds; no hooks in /repo are needed.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
