"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/catalog.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note=None, technique=None, na=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  note=note, technique=technique, na=na))


SIM = "obp/simulator/simulator.py"
prop("C01", "Every delayed reward reaches the policy exactly once, when it is due",
     "In an online simulation the reward of every played round is handed to the policy exactly once, with the action, reward and context of that very round: in the round in which it falls due (play round plus the delay of the chosen action, at once without delays), in play order among rewards due together, and otherwise when the queue is flushed. "
     "A policy call that fails neither loses, repeats nor misattributes the feedback of any other round.",
     ["schedules", "fault_sequences", "histories"], "all sequences of single-round, multi-round, batch and environment-driven stepping and flushing, all delay tables, all points at which the policy's choice or update fails",
     "The tests play a handful of fixed delay tables once, without failures, flush once at the end, and never mix ways of stepping or rounds with and without delays.",
     [SIM, "obp/simulator/delay_sampler.py"],
     [("due-round lookup filled per round, emptied when due or on flush", f"{SIM}: BanditPolicySimulator._step / delayed_update_policy / clear_delayed_queue"), ("round iteration", f"{SIM}: BanditRounds.__iter__")],
     ["calls the policy receives (select_action, update_params)"],
     "Seeded random search over stepping/flush/fault histories of the real simulator against an event-by-event reference model; trusts the scripted policy and the model. Delays are whole numbers; the order inside a flush is left open.",
     "deterministic simulation: scripted policy, seeded delays and failures, reference-model refinement")
prop("C02", "The simulation record always equals the rounds actually completed",
     "At every moment the public record of an online simulation (contexts, chosen actions, obtained rewards, full reward tables, number of rounds, total reward) describes exactly the rounds completed so far, in order and index by index. "
     "This also holds right after a failing policy, environment, reward or delay function aborted an operation, and after any number of later operations; the rounds handed in are never modified.",
     ["fault_sequences", "histories"], "all histories of stepping and flushing operations and all points at which a collaborator fails",
     "The tests read the record after runs in which nothing fails; misalignment needs a failure in the middle of a round followed by more rounds.",
     [SIM], [("a round is recorded after the policy has chosen", f"{SIM}: BanditPolicySimulator._step"), ("total reward and round counter", f"{SIM}: BanditPolicySimulator._step")],
     ["selected_actions, obtained_rewards, contexts, ground_truth_rewards, total_reward, rounds_played"],
     "Seeded random search with failures in every collaborator; the record is compared with the model history after every operation. A round counts as completed once the policy has answered.",
     "deterministic simulation with fault injection, invariant after every operation")
prop("C03", "How an online simulation is stepped or interleaved does not change it",
     "Playing given rounds with a given policy yields the same record and the same trained policy however the rounds are cut into single steps, multi-round steps, batches or environment-driven steps, and when a step whose policy call failed is retried. "
     "Several simulations that share a batch of rounds, interleaved in any order or running in threads, each end exactly as if they had run alone.",
     ["schedules", "fault_sequences", "configurations"], "all cuts of the rounds into operations, all interleavings of simulations (by operation and by line of code), all shipped online policies",
     "The tests run each simulation alone, in one call, to completion.",
     [SIM, "obp/policy/contextfree.py", "obp/policy/linear.py", "obp/policy/logistic.py"],
     [("independent iterators over a shared batch", f"{SIM}: BanditRounds.__iter__/__next__"), ("per-object generators and state", "obp/policy/base.py")],
     ["record of each simulation", "later choices of each policy"],
     "Each run compares an interleaved/cut/failing execution bit by bit with the uninterrupted solo execution; threads are real but scheduled one at a time by the seed at line granularity inside obp.",
     "deterministic simulation: seeded interleavings (operation and line level), equivalence with solo run")
prop("C04", "Drifting coefficients depend on absolute time only, not on request pattern",
     "The coefficients a drifter provides for round t are the same whether rounds are requested one by one or in chunks of any sizes, and follow the documented schedule: constant base coefficients within each drift interval, a shift to the next set (or back, when seasonal) exactly every interval, blended only during the transition period at the end of each interval. "
     "A rejected request leaves the schedule unaffected, and every weighting mixes in the base coefficients with the configured weight.",
     ["schedules", "histories", "configurations"], "all sequences of chunk sizes, drift intervals, transition periods, transition types, seasonal settings and base weights, with rejected requests in between",
     "The tests request one or two chunk patterns for one or two intervals.",
     ["obp/simulator/coefficient_drifter.py"], [("played-round counter and segment boundaries", "obp/simulator/coefficient_drifter.py: CoefficientDrifter.get_coefficients"), ("transition weights", "obp/simulator/coefficient_drifter.py: CoefficientDrifter.get_transition_steps")],
     ["returned context, action and context-action coefficients"],
     "Seeded request histories compared bit by bit with one-by-one requests and, by a reconstruction from the returned values themselves, with the absolute-time schedule. Random ('sampled') transitions are checked for membership and by a very wide frequency bound.",
     "deterministic simulation: seeded request schedules against an absolute-time model")
prop("C05", "Online policies act on completed feedback batches only, and learn from all of it",
     "The choices of an online policy depend on the feedback of completed batches only: what arrives inside an unfinished batch has no influence until the batch is complete, and from then on all of it counts. "
     "The choices always are distinct valid actions of the configured list length, and without exploration they are the best actions according to the statistics of all completed feedback (observed mean rewards, ridge or logistic regression, upper confidence bounds); policies that sample choose with the frequencies of the posterior this feedback defines, the configured share of choices explores (every choice does while an epsilon-greedy policy without context lacks completed feedback for some action), and the action distribution a policy reports is the one it chooses by.",
     ["schedules", "histories", "configurations"], "all histories of choices and feedback (any order, delay, action, context), batch sizes, list lengths and shipped policies",
     "The tests feed one or two updates and look at internal counters.",
     ["obp/policy/contextfree.py", "obp/policy/linear.py", "obp/policy/logistic.py", "obp/policy/base.py"],
     [("temporary statistics copied when a batch completes", "obp/policy/contextfree.py, linear.py, logistic.py: update_params"), ("ranking of scores", "select_action of each policy")],
     ["select_action results"],
     "Each history is fed to the policy and to a twin that gets the same feedback only when a batch completes; choices must agree bit by bit. Deterministic policies are also compared with independently computed scores (ties within 1e-7 accepted).",
     "deterministic simulation: seeded feedback delivery schedules, twin and reference-model comparison")
prop("C06", "Re-initialising an online policy is the same as starting over",
     "After initialize(), an online policy behaves exactly like a newly constructed one with the same parameters and seed, for every later sequence of choices and feedback. "
     "This holds whatever happened before: any feedback, a partly filled batch, a call that failed half-way, or repeated initialisation.",
     ["histories", "fault_sequences", "crash_points"], "all histories before the re-initialisation, including one cut short by a failure at any line, and all histories after it, for every shipped online policy",
     "The tests check a few attributes after initialize() for one policy; the statistics of linear and logistic policies were not covered.",
     ["obp/policy/base.py", "obp/policy/linear.py", "obp/policy/logistic.py", "obp/policy/contextfree.py"],
     [("initialize of every policy", "obp/policy/base.py, linear.py, logistic.py: initialize")], ["select_action results after initialize"],
     "Seeded histories with failures injected at line granularity inside the policy; later choices compared bit by bit with a new policy.",
     "deterministic simulation: seeded histories with line-level crash injection, equivalence with a fresh policy")
prop("C07", "The replay method feeds a policy exactly the matching logged rounds",
     "Replaying a policy on logged data asks it for one choice per logged round, in log order with that round's context, and updates it exactly on the rounds where its choice at the logged position is the logged action, with the logged reward. "
     "The returned distribution states exactly what was chosen in each round, the logged data are left unchanged, and a replay aborted by a failing policy can simply be run again with a fresh or re-initialised policy.",
     ["inputs", "fault_sequences", "histories"], "all logs (actions, positions or none, rewards), all list lengths, context-free, contextual and shipped policies, all points at which the policy fails",
     "The tests never call the replay routine on data (it raised TypeError before the repair).",
     ["obp/simulator/replay.py"], [("match at the logged position, then update", "obp/simulator/replay.py: run_bandit_replay")], ["policy calls", "returned array", "logged arrays"],
     "Seeded logs and scripted policies; every call of the policy and the result are compared with a reference replay; failures at any call, then a retry.",
     "deterministic simulation with fault injection, call-history check against a reference replay")
prop("C08", "Ground-truth values come from independent simulations of a policy copy",
     "The simulated ground-truth value of an online policy is the average over the requested number of simulations of the expected reward of the actions the policy chose, all simulations starting from the state in which the caller handed the policy in and each learning only from rewards drawn for its own choices. "
     "The caller's policy and logged data are unchanged afterwards, also when a reward sampler or the policy fails in the middle, so that a retry gives what an undisturbed call gives.",
     ["inputs", "fault_sequences", "histories"], "all logs, numbers of simulations, policies with any prior training, and failure points of sampler and policy",
     "The tests run one policy with one simulation and compare one number.",
     [SIM], [("policy copied per simulation", f"{SIM}: calc_ground_truth_policy_value")], ["returned value", "calls of the policy copies and of the reward sampler", "caller's policy afterwards"],
     "Scripted and shipped policies over seeded logs; choices are recorded through a shared ledger that survives copying; value compared with the mean of expected rewards of the recorded choices.",
     "deterministic simulation with fault injection, history check")
prop("C09", "Seeded components are reproducible and isolated from each other",
     "Every component that takes a seed produces, for the same seed and the same sequence of calls on it, bit-identical results, regardless of what other objects of the library or users of the global random generators do before, in between, or concurrently in other threads. "
     "Using a seeded component leaves the global NumPy random state untouched.",
     ["schedules", "histories", "programs"], "all interleavings (by call and, for components without a global generator, by line in threads) of the call programs of several seeded components with each other and with other users of the global generators",
     "The tests construct one component at a time in a fresh state; interference between objects needs two of them alternating.",
     ["obp/dataset/synthetic.py", "obp/dataset/synthetic_continuous.py", "obp/dataset/synthetic_slate.py", "obp/dataset/multiclass.py", "obp/dataset/real.py", "obp/simulator/simulator.py", "obp/simulator/coefficient_drifter.py", "obp/simulator/delay_sampler.py", "obp/policy", "obp/ope/regression_model.py", "obp/ope/helper.py", "obp/utils.py"],
     [("one private generator per object", "check_random_state in constructors"), ("reseeding at the start of neural fits", "obp/policy/offline.py: fit")],
     ["results of all public calls", "np.random.get_state()"],
     "Each component's program is run alone and again interleaved with the others and with noise on the global generators; digests of all results must agree. Neural learners are interleaved by call only (torch's generator is global).",
     "deterministic simulation: seeded interleaving of component programs, equivalence with solo run")
prop("C10", "Off-policy evaluation is a pure function of its inputs",
     "The result of evaluating off-policy (point estimates, confidence intervals, summaries, error comparisons) depends only on the logged data and arguments of that call and the estimators' settings: not on earlier evaluations with the same objects, on which other estimators are evaluated along, on calls that failed or were interrupted half-way, or on evaluations running in other threads. "
     "The caller's data are never modified, and the combined summaries state the same numbers as the individual calls.",
     ["histories", "schedules", "crash_points", "fault_sequences"], "all histories of evaluation calls with different data on shared evaluator and estimator objects, interruption at any line, any thread interleaving, in-place changes of the caller's arrays between calls",
     "The tests evaluate once per object; stale state (such as a tuned hyperparameter reused for other data) only shows on the second data set.",
     ["obp/ope/meta.py", "obp/ope/meta_continuous.py", "obp/ope/meta_slate.py", "obp/ope/meta_multi.py", "obp/ope/estimators.py", "obp/ope/estimators_continuous.py", "obp/ope/estimators_slate.py", "obp/ope/estimators_tuning.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_embed.py"],
     [("inputs collected anew per call", "obp/ope/meta*.py: _create_estimator_inputs"), ("hyperparameter tuning per call", "obp/ope/estimators_tuning.py: _tune_hyperparam")],
     ["returned estimates, intervals, data frames", "caller's arrays"],
     "Every call of a history is compared bit by bit with the same call on new objects; failures at a random line inside obp; threads scheduled by seed (estimators that tune are not shared between threads).",
     "deterministic simulation: seeded call histories, line-level interruption, line-level threads, equivalence with fresh objects")
prop("C11", "Loaded log data keep every round intact, in time order, or loading fails",
     "Loading the Open Bandit data yields each logged row exactly once with its action, position rank, reward, propensity, context and action features together, ordered by time, whatever the order of the rows in the file and however the file system delivers the bytes; an I/O error surfaces and a later load is complete. "
     "A time split hands out a disjoint earlier and later part covering everything, and a bootstrap sample consists of intact rows of the (training part of the) data, reproducibly by seed.",
     ["inputs", "schedules", "fault_sequences"], "all file contents (row order, time stamps, positions in use), all chunkings of the bytes, I/O errors at any point, all split fractions, bootstrap seeds and sizes",
     "The tests read the bundled sample files, which are small, always readable, and of one fixed order.",
     ["obp/dataset/real.py"], [("sort by timestamp, rank positions, align item features", "obp/dataset/real.py: load_raw_data / pre_process"), ("time split", "obp/dataset/real.py: obtain_batch_bandit_feedback"), ("bootstrap", "obp/dataset/real.py: sample_bootstrap_bandit_feedback")],
     ["dictionaries returned by the dataset"],
     "Generated data directories in a scratch folder, every row carries a unique mark in its features; reads go through a simulated file layer with short reads and errors. Truncated files that remain well-formed are out of scope.",
     "deterministic simulation: simulated file system with short reads and I/O errors, row-identity check")
prop("C12", "Logged synthetic data are internally consistent under any random outcome",
     "In every data set a generator produces, each round's logged propensity is positive and equals the probability the stated behaviour policy gives the logged action there (slate-level and position-level variants likewise), no logged action is one the policy excludes, and the logged reward is a draw for the logged action under that round's stated expected reward. "
     "This holds for every outcome of the random draws, including the extreme ones, and for every later batch drawn from the same generator, whose draws are independent of those of earlier batches and of other rounds.",
     ["inputs", "configurations", "schedules"], "all random outcomes (unit draws pushed to the edges of their range), all configurations of the synthetic, multi-logger, slate, continuous and classification-based generators, any number of batches",
     "The tests check shapes and a few seeds; edges of the random draws never occur in them.",
     ["obp/dataset/synthetic.py", "obp/dataset/synthetic_multi.py", "obp/dataset/synthetic_slate.py", "obp/dataset/synthetic_continuous.py", "obp/dataset/multiclass.py", "obp/dataset/synthetic_embed.py", "obp/utils.py"],
     [("sampling from a probability table", "obp/utils.py: sample_action_fast"), ("propensity looked up for the sampled action", "obp/dataset/*: obtain_batch_bandit_feedback")],
     ["logged dictionaries"],
     "Random generators behind a seam push unit draws to their edges; expected rewards are stubbed with 0/1 tables so that the logged reward reveals the action it was drawn for; propensities are recomputed independently.",
     "deterministic simulation: controlled randomness with extreme draws, independent recomputation")
prop("C13", "Cross-fitted nuisance estimates never see the round they are used for",
     "When reward, slate-reward, propensity or importance-weight models are cross-fitted, the estimate for every round comes from exactly one model that was not trained on that round, every round is estimated exactly once and at its own index, each fold's model is trained on exactly the rest of the data with the documented targets and weights, and without cross-fitting all data are used once. "
     "This holds for any number of folds, for any data arrangement and actions, and when a call is repeated after a model failed to fit.",
     ["inputs", "configurations", "fault_sequences"], "all fold counts, seeds, row arrangements, positions, fitting methods, and failure points of the base model",
     "The tests check shapes and error values of one model class; which rows trained which prediction is not visible to them.",
     ["obp/ope/regression_model.py", "obp/ope/regression_model_slate.py", "obp/ope/classification_model.py"],
     [("fold loop", "obp/ope/regression_model.py: fit_predict"), ("same for the classifiers", "obp/ope/classification_model.py: fit_predict")],
     ["fit and predict calls of the base model", "returned array"],
     "Base models are recording stubs whose predictions name the model and the row; every row carries a unique mark in its context. Failures of fit/predict at any call followed by a retry.",
     "deterministic simulation: recording model stubs with fault injection, provenance check of every prediction")
prop("C14", "Offline learners: refitting starts over, and sampled rankings are always valid",
     "Fitting a classification- or regression-based offline policy learner (IPWLearner, QLearner) again gives the same policy as a new learner fitted on the last data only, also when an earlier fit failed half-way; each position's model is trained on exactly that position's logged rounds with the targets and weights the method defines. "
     "Predictions name exactly one valid action per round and position, the one with the best score there; action probabilities are those of the softmax of the scores; sampled rankings consist of distinct valid actions and follow the Plackett-Luce distribution of the scores for every random draw, and the same seed gives the same sample.",
     ["histories", "fault_sequences", "inputs"], "all histories of fits (failing ones included) and predictions, all random outcomes of the sampling methods, list lengths, and learners",
     "The tests fit once per learner and check shapes.",
     ["obp/policy/offline.py", "obp/policy/offline_continuous.py", "obp/utils.py"],
     [("base model cloned per position", "obp/policy/offline.py: IPWLearner / QLearner"), ("sampling without replacement", "obp/policy/offline.py: sample_action"), ("score to probability", "obp/policy/offline.py: predict_proba")],
     ["predictions, samples", "fit calls of the base model"],
     "Recording model stubs plus real scikit-learn and torch models; refit compared bit by bit with a fresh fit; draws pushed to their edges.",
     "deterministic simulation: seeded fit/predict histories with failing models and extreme draws")
prop("C15", "Off-policy estimates equal the value of really deploying the policy",
     "On a log in which every outcome occurs exactly in proportion to its probability, every importance-weighting and doubly robust estimator (and every estimator given the true rewards) returns exactly the average reward obtained by deploying the evaluation policy in the same world, in the standard, multi-logger, slate and action-embedding settings. "
     "For every estimator (continuous actions included) the estimate does not depend on the order in which the logged rounds arrive, is unchanged when the whole log is delivered several times, and the per-round estimators of partial logs combine to the estimate of the full log.",
     ["inputs", "configurations", "schedules"], "all finite worlds (contexts, propensities, rewards, positions, loggers), all evaluation policies, all arrival orders, duplications and partitions of the log",
     "The tests compare single estimates with loose statistical bounds on a few seeds; many wrong formulas stay within them.",
     ["obp/ope/estimators.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_slate.py", "obp/ope/estimators_embed.py", "obp/ope/estimators_tuning.py", "obp/ope/estimators_continuous.py", "obp/ope/meta.py", "obp/ope/meta_slate.py", "obp/ope/meta_multi.py"],
     [("importance weights at the logged position", "obp/ope/estimators.py: _estimate_round_rewards"), ("slate importance weights", "obp/ope/estimators_slate.py")],
     ["estimate_policy_value(s)"],
     "Worlds with rational probabilities are rolled out so that the log is exactly balanced, and the deployment is rolled out in the same way; agreement to 1e-8. Shrinking estimators are checked where they must be exact (no shrinkage, or true reward model).",
     "deterministic simulation: controlled randomness (balanced worlds), deployment as oracle, reordered / duplicated / partitioned log delivery")
prop("C16", "Ground-truth policy values equal the reward of deploying the policy",
     "The ground-truth value a data generator states for an evaluation policy equals the average reward per round (per slate, summed over its positions) that deploying this policy in the generator's own world yields, for every reward function, reward structure, click model, number of positions and behaviour policy. "
     "It does not depend on how many batches were drawn before, nor on calls that failed or were interrupted before, and the expected rewards attached to logged rounds are those of the same world.",
     ["inputs", "configurations", "histories", "fault_sequences"], "all worlds (reward tables and functions, reward structures, click models), all evaluation policies, all histories of batches drawn, failing reward functions and interruptions before the call",
     "The tests compare a few values for one configuration at a time; a wrong interaction or click probability in a later slot, or a value polluted by an earlier failure, does not show.",
     ["obp/dataset/synthetic.py", "obp/dataset/synthetic_slate.py", "obp/dataset/synthetic_continuous.py", "obp/dataset/synthetic_multi.py", "obp/dataset/synthetic_embed.py", "obp/dataset/multiclass.py"],
     [("ground-truth value", "obp/dataset/*: calc_ground_truth_policy_value / calc_on_policy_policy_value"), ("slot interaction and click model", "obp/dataset/synthetic_slate.py: action_interaction_reward_function, calc_ground_truth_policy_value")],
     ["returned policy values", "rewards of a simulated deployment"],
     "Tabular worlds; deployment by enumeration of all actions or slates and by sampling through the generator's own reward draws (bound of six standard errors and more); failing reward functions and line-level interruption before the call.",
     "deterministic simulation: deployment in the generator's world as oracle, seeded call histories with failing reward functions and line-level interruption")
prop("C17", "Stated evaluation-policy probabilities are those of deploying the policy",
     "The probabilities a data generator states for an evaluation policy (of whole slates, of their top items, of an item at its position, of the next item given those above it, and of the greedy, anti-greedy and classifier-based policies with exploration) are those with which deploying this policy would show exactly these items: for every score table, every logged or hypothetical slate, with and without replacement. "
     "Evaluated on its own log, the behaviour policy has the logged propensities; asking, also when a call fails or is interrupted, changes neither the caller's arrays nor the data the generator draws later.",
     ["inputs", "configurations", "histories", "fault_sequences"], "all score tables, slates, list lengths, exploration rates and classifiers; all interleavings of questions, batches, failing classifiers and interruptions",
     "The tests check monotonicity relations and a few sums; a wrong probability that keeps them, or a question that shifts the random stream of the next batch, does not show.",
     ["obp/dataset/synthetic_slate.py", "obp/dataset/multiclass.py"],
     [("slate, cascade and position-wise probabilities", "obp/dataset/synthetic_slate.py: obtain_pscore_given_evaluation_policy_logit"), ("next-item distributions", "obp/dataset/synthetic_slate.py: calc_evaluation_policy_action_dist"), ("greedy policies", "obp/dataset/synthetic_slate.py: generate_evaluation_policy_pscore"), ("classifier policies", "obp/dataset/multiclass.py: obtain_action_dist_by_eval_policy")],
     ["returned probabilities", "batches drawn afterwards"],
     "Interleaved histories of batches and questions on one generator, some interrupted at a line of code; every answer against the enumerated probability of deploying the policy item by item; batches against a twin generator that was never asked.",
     "deterministic simulation: seeded histories of questions and draws with line-level interruption, enumerated deployment as oracle, undisturbed twin")
prop("C18", "Confidence intervals are those of resampling the rounds",
     "The interval reported for an estimate is the central quantile range, at the stated level, of the mean of rounds resampled with replacement from exactly the log's rounds (slates in the slate setting), each with its own contribution to the estimate; the contributions add up to the estimate. "
     "This holds for every estimator whose estimate is a sum of per-round contributions, for every level, number of resamples and seed, through the estimators and the combined front ends, and after interrupted calls.",
     ["inputs", "configurations", "schedules"], "all logs, levels, resample counts and seeds of the resampling",
     "The tests check that the bounds are ordered and finite; a wrong level, resample size or sample passes.",
     ["obp/utils.py", "obp/ope/estimators.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_slate.py", "obp/ope/estimators_continuous.py", "obp/ope/estimators_embed.py", "obp/ope/meta.py"],
     [("bootstrap", "obp/utils.py: estimate_confidence_interval_by_bootstrap"), ("per-round contributions", "obp/ope/estimators*.py: estimate_interval"), ("slate sums", "obp/ope/estimators_slate.py: _estimate_slate_confidence_interval_by_bootstrap")],
     ["estimate_interval(s)", "estimate_policy_value"],
     "The contribution of each round is isolated by zeroing what all other rounds earn; the reported bounds must be possible outcomes of the simulated bootstrap of these contributions (7.5 standard errors), over many seeds.",
     "deterministic simulation: seeded resampling runs with interruptions, harness bootstrap of isolated contributions as oracle")
prop("C19", "Simulated environments hand out rounds of the stated world",
     "Every round a simulated environment hands out, singly or in a batch, carries the expected rewards of its own context at its absolute time (with drifting coefficients too), rewards drawn independently per action under them, and one whole non-negative delay per action drawn by the configured delay law for these expected rewards. "
     "This holds for any mix of single rounds and batches; a failing reward or delay function surfaces and leaves later rounds correct.",
     ["configurations", "histories", "fault_sequences", "schedules"], "all reward worlds, drift schedules, delay functions, request patterns, random outcomes and failures of the supplied functions",
     "The tests draw a few batches with one seed and compare numbers; mixed requests, failures in between and the delay law are not covered.",
     ["obp/simulator/simulator.py", "obp/simulator/delay_sampler.py", "obp/simulator/coefficient_drifter.py"],
     [("round assembly", "obp/simulator/simulator.py: next_bandit_round, next_bandit_round_batch"), ("delay laws", "obp/simulator/delay_sampler.py")],
     ["returned rounds"],
     "Tabular or drifting reward worlds with an independent twin of the drift schedule, scripted and real delay functions failing on command, pushed random draws; laws judged at 7.5 standard errors.",
     "deterministic simulation: seeded request histories with failing collaborators and controlled randomness, reference model of the world")
prop("C21", "Self-tuning estimators use the candidate their rule picks on the data at hand",
     "An off-policy estimator that tunes its hyperparameter (by SLOPE or by the estimated mean squared error) or selects its action embedding answers with the value, and the interval, that the plain estimator has for the chosen candidate, and the candidate is the one the documented rule names for the data of that very call: the last acceptable one in order of decreasing confidence width, or the one with the smallest variance plus squared bias (bound). "
     "It depends neither on the order in which candidates are listed, nor on earlier calls with other data, nor on interrupted calls, and is the same for values, intervals and through the front end.",
     ["histories", "fault_sequences", "configurations"], "all sequences of evaluations on all logs, candidate lists, tuning rules, levels and interruptions",
     "The tests only check that some candidate was chosen; a wrong selection still yields a plausible number.",
     ["obp/ope/estimators_tuning.py", "obp/ope/estimators_embed.py", "obp/ope/helper.py", "obp/ope/estimators.py"],
     [("SLOPE and MSE tuning", "obp/ope/estimators_tuning.py: _tune_hyperparam_with_slope, _tune_hyperparam_with_mse"), ("embedding selection", "obp/ope/estimators_embed.py: _estimate_with_exact_pruning, _estimate_with_greedy_pruning"), ("bias and confidence bounds", "obp/ope/helper.py, estimators.py: _estimate_mse_score")],
     ["estimate_policy_value", "estimate_interval", "best_hyperparam"],
     "Histories of calls on shared estimator objects, some cut off at a line of code; every answer against an independent implementation of the selection rule and of the candidates' formulas; comparisons decided by less than 1e-9 are left open.",
     "deterministic simulation: seeded call histories with line-level interruption, independent model of the selection rule as oracle")

prop("C23", "Neural learners ascend the objective they are configured with",
     "While its stopping rule does not trigger, every completed fit of a neural policy learner or reward network makes max_iter passes over exactly the rounds it was given (less the stated validation part), in minibatches of the stated size, each step being the configured optimiser's step on the gradient of the stated objective (importance weighted, self-normalised, shrunk, sub-Gaussian, direct or doubly robust, with the stated regularisers; squared error for reward networks), starting from the current network. "
     "The result does not depend on interrupted earlier fits or on other users of torch's global generator; probabilities, chosen actions and output ranges follow from the trained network; the caller's arrays stay as they were.",
     ["histories", "schedules", "fault_sequences", "configurations"], "all sequences of fits on all logs, objectives, optimisers and network shapes, all shuffles and validation splits, interruptions at any line",
     "The tests only check shapes of predictions after a short training; a step in a wrong direction or over the wrong rounds still gives a valid policy.",
     ["obp/policy/offline.py", "obp/policy/offline_continuous.py"],
     [("discrete policy learner", "obp/policy/offline.py: NNPolicyLearner.fit, _estimate_policy_gradient, _estimate_policy_constraint"), ("reward networks", "QFuncEstimator.fit, QFuncEstimatorForContinuousAction.fit"), ("continuous policy learner", "obp/policy/offline_continuous.py: ContinuousNNPolicyLearner.fit")],
     ["predict", "predict_proba", "caller's arrays"],
     "Histories of fits with the shuffles and splits drawn by the simulator, some fits cut off at a line of code; each completed fit against a double-precision reference that follows the gradient of the objective itself (not of the library's surrogate) from the state before the fit.",
     "deterministic simulation: seeded fit histories with line-level interruption and simulated shuffles, double-precision reference optimiser as oracle")

prop("C20", "Every estimate is its estimator's formula on the data of that very call",
     "Whatever was asked of an estimator or front end before, on whatever data, and however earlier calls ended, each policy value it returns is the value of the estimator's documented formula, with its documented hyperparameter (weight clipping, switching, shrinkage, sub-Gaussian weights, self-normalisation, stratum weights, kernel and bandwidth, slate factors), "
     "for the logged data and the evaluation arguments as they are at that call; summaries, relative values and error metrics are those of that value, and the caller's arrays are not modified.",
     ["histories", "fault_sequences", "inputs"], "all sequences of calls on shared estimators and front ends of the four families, all logs, evaluation policies and hyperparameters including weights equal to the threshold, zero and huge weights; arrays overwritten in place between calls; calls interrupted at any line",
     "The tests call each estimator once on a few random inputs and compare mostly shapes, orders and closeness to the true value.",
     ["obp/ope/estimators.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_slate.py", "obp/ope/estimators_continuous.py", "obp/ope/estimators_embed.py", "obp/ope/meta.py"],
     [("per-round estimates", "_estimate_round_rewards of every estimator class"), ("front ends", "OffPolicyEvaluation and its multi-logger, slate and continuous siblings: estimate_policy_values, summarize_off_policy_estimates, evaluate_performance_of_estimators")],
     ["estimate_policy_value", "estimate_policy_values", "summaries", "error metrics"],
     "Histories of calls on shared objects, some cut off at a line of code, with the caller's arrays overwritten in place; every number against the published formula evaluated round by round in exact summation. Inputs on which a formula divides by zero are not judged.",
     "deterministic simulation: seeded call histories with line-level interruption and overwritten buffers, round-by-round reference formulas as oracle")
prop("C22", "Malformed requests are rejected and leave no trace",
     "A request whose arguments contradict the documented types, ranges or shapes - constructor arguments, a single wrong element anywhere in logged data (a propensity that is not positive, an action or position out of range or not an integer, a distribution that does not sum to one, a repeated slate position, unequal or rising slate propensities), arrays of different lengths or dimensions, bad interval, metric, fold or batch-size arguments - raises an error whenever the component works with that input. "
     "A rejected request changes nothing: the caller's data stay as they were and the object answers every later request exactly as if it had never received it.",
     ["histories", "fault_sequences", "inputs"], "all histories of valid and malformed requests to datasets, environments, replay, online and offline policies, regression, propensity and weight models, estimators and front ends; any position of the wrong element",
     "Tests list one malformed example per check, on a fresh object, and never use the object afterwards.",
     ["obp/utils.py", "obp/ope/meta.py", "obp/ope/regression_model.py", "obp/dataset/synthetic.py", "obp/policy/offline.py", "obp/simulator/simulator.py"],
     [("argument checks", "obp/utils.py: check_bandit_feedback_inputs, check_ope_inputs, check_multi_loggers_ope_inputs, check_continuous_ope_inputs, check_sips_inputs, check_iips_inputs, check_rips_inputs, check_cascade_dr_inputs, check_confidence_interval_arguments"), ("fits", "fit and fit_predict of learners and models"), ("batches", "obtain_batch_bandit_feedback, next_bandit_round_batch")],
     ["raised errors", "results of later valid calls", "caller's arrays"],
     "Fault injection by malformed requests between valid calls; the disturbed object against a twin that only saw the valid calls, bit for bit. Inputs a component does not use, and online updates, which the library does not validate, are not judged.",
     "deterministic simulation: seeded histories of valid calls with injected malformed requests, undisturbed twin as oracle")
prop("C25", "Shipped reward and behaviour functions compute the stated world",
     "The reward, behaviour-policy, slate-interaction and continuous-policy functions that ship with the simulator are functions of their arguments: each round's value has the documented form (linear, cubic or sparse polynomial features of context and action with the coefficients the coefficient function gives for that round, a sigmoid for the logistic ones, z-scored over the batch when asked, softmax or logits with the stated temperature, slot interactions of the stated kind) "
     "and depends neither on how the rounds are cut into batches (without z-scoring), nor on earlier requests, failed or interrupted ones, other threads, or what the caller does with the arrays passed in or handed out, none of which a call modifies.",
     ["histories", "schedules", "fault_sequences", "configurations"], "all sequences of requests on all contexts, action contexts, seeds, coefficient functions, structures and batch cuts; failing coefficient and base reward functions; interruptions at any line; thread schedules",
     "The tests check shapes and ranges of one call with one seed; a wrong feature, slot or round still gives plausible rewards.",
     ["obp/dataset/synthetic.py", "obp/dataset/synthetic_slate.py", "obp/dataset/synthetic_continuous.py", "obp/simulator/coefficient_drifter.py"],
     [("reward functions", "obp/dataset/synthetic.py: linear_reward_function, polynomial_reward_function, sparse_reward_function, their logistic forms, _base_reward_function"), ("behaviour policies", "linear_behavior_policy, polynomial_behavior_policy, linear_behavior_policy_logit"), ("slate interactions", "obp/dataset/synthetic_slate.py: action_interaction_reward_function"), ("continuous", "obp/dataset/synthetic_continuous.py")],
     ["returned expected rewards, logits and probabilities", "caller's arrays"],
     "Histories of requests with edited arrays, failing collaborators, line-level interruptions and threads; what a function must return is derived from its documented form, the recorded coefficients and its own answers for unit coefficients. Which features a sparse function uses and which coefficients a seed stands for are left open.",
     "deterministic simulation: seeded request histories with failing collaborators, interruptions and thread schedules, documented forms as oracle")
prop("C24", "Learned policies approach the best policy as data grow",
     "Offline learners trained on enough data reach the value of the best policy in their class.", ["inputs"], "all data distributions", "Tests use one distribution.", ["obp/policy/offline.py"],
     [("training objective", "obp/policy/offline.py")], ["policy value"], na="A statement about numerical optimisation and statistical consistency; no schedule, fault or history decides it, and any finite simulation would need a tolerance that either hides real errors or raises false alarms.")


def main():
    claimed = [p for p in P if p["na"] is None and os.path.exists(os.path.join(HERE, "sim", "props", p["id"].lower() + ".py"))]
    later = [p for p in P if p["na"] is None and p not in claimed]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh",
             checks=[dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough", technique=p["technique"], level="exploration", level_note=p["note"], evidence_file=f"evidence/{p['id']}.json") for p in claimed],
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]] + [dict(property=p["id"], reason="check not built yet") for p in later],
             notes="No hooks in /repo: collaborators (policies, models, reward/delay functions), numpy's RandomState, builtins.open, sys.settrace and threads are the seams. Genuine defects found are repaired in fix: commits and listed in known_findings.json.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
