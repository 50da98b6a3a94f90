HOW = {
'P01': 'The harness calls `NStep.add/pop/flush/reset`, truth value and length in an order chosen by the solver, with symbolic rewards, discount, weights, propensities and terminal flags; the oracle is an array of all steps of the episode from which each expected transition is computed directly (sum of n discounted rewards, bootstrap factor gamma^n or 0). EpisodeDoneError and InsufficientCacheError are part of the oracle.',
'P02': 'As P01 for `MonteCarlo`, including several episodes traced by one object and partial popping.',
'P03': '`TransitionBatch.from_single`, `to_singles`, indexing and the concatenation used by the replay buffers run on symbolic fields; the oracle compares every field of every row with the inputs (nested and missing fields included).',
'P04': 'Symbolic sequences of `add` (single or batch, symbolic sizes), `sample` (the selection of `random.sample` is a symbolic injection), iteration and `clear`; oracle: list of the last c transitions.',
'P05': 'Symbolic sequences of `add`, `update` (live and stale ids), `alpha` changes, `clear` and `sample`; the uniform draws of the sum tree are symbolic, so that "proportional" becomes: row i is selected exactly for draws in its interval of length p_i/total. Powers are uninterpreted with their laws. Oracle: dictionary id -> latest advantage.',
'P06': 'Symbolic values, indices (single, batched, repeated, slices), query ranges and u over trees of every capacity within the bounds; oracle: plain array with direct sum, min, max and interval test for the inverse distribution function.',
'P07': 'One move from a symbolic board (cells symbolic, constrained to gravity) for each fill level of the column: landing cell, four-in-a-row in any direction by direct enumeration of the 69 lines, draws, rewards, illegal moves, observation; plus state ids and symbolic short games from the start position.',
'P08': 'Symbolic sequences of reset, step (symbolic rewards, done, truncated), record_metrics, period, snapshots and restores; oracle: counters kept by the harness. The reservoir is checked for every outcome of its random numbers.',
'P09': 'The wrappers run on symbolic actions, bounds and offsets (sigmoid via exp), for several shapes; oracle: the formula, containment in the Box, and the bin intervals. Float boundary inputs are part of the replayed runs (two rounding defects were found there).',
'P10': 'Symbolic sequences of reset/step over a symbolic environment (observations are fresh symbols) and symbolic choice of arms; oracle: list of frames.',
'P11': 'All TD-learning classes are built on tables (see above) and `td_error` and `grads_and_metrics` are traced; the oracle is the documented target written directly over the table entries (with ties in greedy actions averaged), for both function types, with/without target networks, with identity, equal and different affine value transforms, discrete and Box actions, and all index patterns of repeated states.',
'P12': '`update()` is traced as a whole (optimizer sgd(0.5)), its gradients included; the oracle is the hand-derived gradient of the weighted loss with the target held constant, entry by entry of the parameter tables, the function states, loss and TD-error metrics. The regions of weight clip and Huber loss are covered by an orthogonal array (quick) or all combinations (thorough).',
'P15': 'All functions of `CategoricalDist` are traced with symbolic logits (which logit is largest is forked, so that softmax is exact algebra over exponentials), symbolic Gumbel draws and symbolic variates.',
'P16': 'As P15 for `NormalDist` and `SquashedNormalDist` (tanh via exp, log-Jacobian), over shapes (), (2,), (2,2); containment of clean variates is decided with clip/round-off bounds.',
'P17': '`DiscretizedIntervalDist` (projection of the affine image of the atoms: mass to the two neighbours, total mass one, mean preserved inside the support) and `EmpiricalQuantileDist` with symbolic weights, scales and shifts.',
'P19': '`mse`, `huber`, `logloss`, `logloss_sign`, `quantile_huber` and their JAX gradients against the formulas, with and without weights, for all regions.',
'P20': '`LogTransform` in both directions over symbolic values; inverse, oddness, monotonicity and derivative through the laws of exp and log.',
'P13': '`update()` of every policy objective is traced as a whole (optimizer sgd) on tabular policies and value functions, with symbolic random draws for the reparametrized actions; the oracle is the hand-derived gradient of the documented objective, entry by entry of the policy table (softmax or Gaussian), including the regions of the PPO clip and of the weight clip, and with entropy and KL regularizers. `DeterministicPG` on discrete actions is judged in its documented differentiable mode (softmax at temperature 0.2).',
'P14': '`batch_eval` of the three regularizers is traced on tabular policies and value distributions with symbolic logits, priors and beta (which logit is the largest is forked, so that softmax is exact algebra over exponentials); the step at which each row ends is a symbolic choice. Oracle: the formula per row.',
'P21': 'The methods are traced as a whole (numpy conversions at their end are replaced by tracing ones) on tables whose value shows parameters, state and mode; random draws are symbolic inputs. Oracle: the table entry, its inverse transform, and for distributions the same function of the distribution (P15-P17) applied to that single row.',
'P22': 'As P21, with symbolic epsilon and temperature; the set of greedy actions is forked, so that all patterns of ties are covered. `RandomPolicy` runs on symbolic Box bounds.',
'P28': '`ModelUpdater.update()` is traced as a whole (sgd) on tables over states and actions, type 1 and type 2, deterministic and stochastic, with symbolic Gumbel draws; the oracle is the hand-derived gradient of the weighted loss, entry by entry. Weights are covered region by region of the clip.',
'P23': 'Sequences of operations (symbolic choice, all histories of the given length) run inside one trace on objects with symbolic parameters, gradients, states and tau; the oracle keeps parameters, state and momentum of each object in Python. `SimpleTD.update()` is also run with its own gradients, so that a stale target or optimizer state shows after two operations.',
'P27': '`update()` is traced as a whole on distributional tables; the oracle selects the right rows and actions itself, gets target law and gradient of each single transition from the functions judged in P17 and P19, and combines them with the clipped weights, entry by entry of the table. Regions of projection, Huber loss and weights are forked up front.',
'P18': 'All functions of `ProbaDist` are traced with symbolic parameters for every leaf; the oracle calls fresh leaf distributions (judged by P15, P16) on the leaves found by walking the space itself. Random keys of the draws of one sample must be pairwise different.',
'P24': 'The functions run on symbolic actions, draws, parameters, times and values, with resets at symbolic moments; oracle: the recursion written per component, the interpolation formula in the segment the solver chooses, and the mean of the last n values.',
'P25': 'Each helper is traced (or run, for the numpy ones) on symbolic arrays and draws; ties, shapes, axes and structures are symbolic or enumerated choices. Oracle: rows and entries picked by hand, the definition of maximiser, one-hot, clip, finite difference and weighted average.',
'P26': 'The real `Worker` methods run on a scripted environment with symbolic rewards, propensities and episode endings; the solver chooses lengths, endings, whose turn it is and how many steps remain. Ray handles are replaced by a stand-in whose `.remote()` calls run at once and whose results only `ray.get` opens. Oracle: the script itself and counters kept by the harness.',
'P29': '',
'P30': 'DmcGymWrapper.step and reset, flatten_obs, spec_to_box and extract_min_max run symbolically on a stand-in for dm_control.suite that plays any task: observations (parts of rank 0, 1 and 2), rewards, actions, ends and the bounds of the specs are symbols, the sequence of resets (with and without seed) and steps is chosen by the solver. Oracle: the entries in order, the values put in. Outside: the physics, rendering, make_dmc registration.',
}
