TECH_NP = ('dynamic symbolic execution of the current Python source over z3 terms (symbolic numpy); '
           'z3 decides every assertion on every feasible path')
TECH_JX = ('symbolic evaluation of the jaxpr that jax traces from the current source into z3 real '
           'arithmetic; z3 decides the assertions')
TECH_BOTH = TECH_NP + '; jax parts: ' + TECH_JX
NOTES = ('Solver-based checking of the real code throughout: /verif/engine executes the functions of '
         '/repo on z3 terms (numpy code directly, jax code through its jaxpr), every counterexample is '
         'replayed on the unpatched code before it is reported. See DESIGN.md.')
B = 'Bounded: all values within the bounds listed in the evidence; reals instead of floats. '

CAUGHT = {}   # planted change -> exceptions

PROPS = [
 dict(id='P01', title='n-step tracing yields exactly the right transitions, whatever the order of calls',
  statement='Whatever the order in which steps are added to and transitions are taken from an n-step reward tracer, each step of an episode yields exactly one transition, in order, whose partial return is the discounted sum of the next n rewards and whose bootstrap factor, next state and next action are those n steps ahead. Near the end of an episode the sum is truncated at the terminal step and the bootstrap factor is zero; truth value and errors tell correctly when a transition is available and when adding is not allowed. Log-propensities, sample weights and recorded extra information belong to the same steps.',
  over=['inputs', 'histories', 'configurations'], forall='all n, discount factors, rewards, weights, episode lengths and interleavings of add, pop, flush and reset within the bounds',
  why='The tests run a handful of fixed episodes with one schedule of calls; off-by-one errors need a particular n, episode length and interleaving.',
  files=['coax/reward_tracing/_nstep.py', 'coax/reward_tracing/_base.py', 'coax/reward_tracing/_transition.py'],
  mech=[('deque of the last n steps and cached discounts', 'NStep.add, NStep.pop'), ('flush', 'BaseRewardTracer.flush')],
  note=B + 'Episode of <=6 steps, n<=4, symbolic rewards, discount, weights and call order.'),
 dict(id='P02', title='Monte Carlo tracing yields the full discounted return of every step',
  statement='A Monte Carlo reward tracer returns, once an episode is over, exactly one transition per step whose return is the discounted sum of all rewards from that step to the end of the episode, with a bootstrap factor of zero. Transitions can only be taken after the end of the episode and adding is refused while a finished episode is pending. State, action, log-propensity and weight stay together.',
  over=['inputs', 'histories'], forall='all rewards, discount factors, weights, episode lengths and interleavings of calls within the bounds',
  why='Tests use one fixed episode and discount.',
  files=['coax/reward_tracing/_montecarlo.py', 'coax/reward_tracing/_base.py'],
  mech=[('running return, popped in reverse', 'MonteCarlo.pop'), ('episode bookkeeping', 'MonteCarlo.add')],
  note=B + 'Episodes of <=6 steps with symbolic rewards, discount, weights and call order.'),
 dict(id='P03', title='Transition batches keep every field of every transition together',
  statement='Building a batch of transitions from a single step computes the partial return and the bootstrap factor from the given rewards, discount and terminal flag; splitting a batch into single transitions, mapping over it and concatenating batches neither loses, reorders nor mixes fields, extra information included. Concatenating and splitting are inverse to each other; changes of a copy do not reach the original, nor, for a deep copy, changes of its arrays.',
  over=['inputs', 'configurations'], forall='all field values, reward sequences, discounts and batch sizes within the bounds',
  why='Tests check shapes and a few fixed values.',
  files=['coax/reward_tracing/_transition.py', 'coax/experience_replay/_simple.py'],
  mech=[('from_single, to_singles, copy', 'coax/reward_tracing/_transition.py'), ('concatenation', '_concatenate_leaves')],
  note=B + 'Batches of <=4 rows.'),
 dict(id='P04', title='Uniform replay holds exactly the latest transitions and samples stored rows',
  statement='A uniform replay buffer of capacity c holds, after any sequence of additions of single transitions or batches, exactly the last c transitions in order, under consecutive identifiers. A sample has the requested size, consists of distinct stored transitions with all fields unchanged and leaves the buffer unchanged; iteration, length, truth value and clearing agree with the contents.',
  over=['inputs', 'histories', 'configurations'], forall='all capacities, batch sizes, field values, sequences of additions and random selections within the bounds',
  why='Tests add a fixed stream to one buffer and check sizes.',
  files=['coax/experience_replay/_simple.py', 'coax/experience_replay/_base.py'],
  mech=[('deque with a maximal length', 'SimpleReplayBuffer.add'), ('sampling without replacement', 'SimpleReplayBuffer.sample')],
  note=B + 'Capacity <=4, <=3 additions of <=3 rows.'),
 dict(id='P05', title='Prioritized replay samples in proportion to the current priorities',
  statement='After any sequence of additions and priority updates, a prioritized replay buffer holds exactly the latest transitions, each with priority (|advantage|+epsilon)^alpha of its latest known advantage; updates for transitions that have been evicted change nothing. A transition is selected with probability proportional to its priority, and its importance weight is (N*P)^(-beta) relative to the largest in the batch, multiplied into its own weight. Changing alpha re-expresses all stored priorities, and clearing starts afresh.',
  over=['inputs', 'histories', 'configurations'], forall='all advantages, identifiers (live or stale), draws, capacities and sequences of operations within the bounds',
  why='Tests look at one fill level and one update; stale identifiers and wrap-around need particular histories.',
  files=['coax/experience_replay/_prioritized.py', 'coax/utils/_segment_tree.py'],
  mech=[('storage indexed by identifier modulo capacity, sum tree of priorities', 'PrioritizedReplayBuffer.add/update/sample')],
  note=B + 'Capacity <=4, <=3 additions of <=3 rows, two updates, samples of <=2; the draws of the sum tree are symbolic.'),
 dict(id='P06', title='Segment trees always agree with the plain array they represent',
  statement='After any sequence of assignments, the values of a segment tree equal those of a plain array; its total and every reduction over a range equal the direct sum, minimum or maximum over that range. The sum tree maps a number u in [0,1] to an index i such that the sum of values before i is at most u times the total and the sum up to and including i is at least that, never selecting an index of weight zero or out of range.',
  over=['inputs', 'histories', 'configurations'], forall='all capacities, values, index patterns (single, batched, repeated, sliced) and query ranges within the bounds',
  why='Tests compare against random arrays for a few sizes; boundary leaves and sizes that are no power of two need particular indices.',
  files=['coax/utils/_segment_tree.py'],
  mech=[('bottom-up update of the parents', 'SegmentTree.set_values'), ('range decomposition', 'SegmentTree.partial_reduce'), ('descent', 'SumTree.inverse_cdf')],
  note=B + 'Capacity <=6 (8 thorough), symbolic values, indices, ranges and u.'),
 dict(id='P07', title='Connect Four follows the rules of the game in every reachable position',
  statement='In the Connect Four environment every move lands on the lowest free cell of its column, a game ends exactly when the mover has four in a row in any direction (reward 1), or the board is full (reward 0), and illegal moves are refused. Available actions are exactly the columns that are not full, players alternate, and observations show the board from the point of view of the player to move.',
  over=['inputs', 'histories'], forall='all boards satisfying gravity (not only sampled games) and all moves',
  why='Tests check a few fixed lines; diagonals at the border, full columns and draws need particular positions.',
  files=['coax/envs/_connect_four.py'],
  mech=[('win detection by convolution-like filters', 'ConnectFourEnv._done_reward'), ('moves', 'ConnectFourEnv.step')],
  note=B + 'One arbitrary step from an arbitrary legal board, plus short games from the start.'),
 dict(id='P08', title='The training monitor accounts for every step, episode and metric exactly',
  statement='Whatever the sequence of steps, terminations, truncations and resets, the monitor passes everything through unchanged and keeps exact counts of global steps, episodes and steps in the episode, the return of the episode, and the average return smoothed by the documented rule. Recorded metrics are averaged over the episode, a periodic trigger fires once per completed period per name, and the sample of actions is a bounded uniform reservoir. Counters that were saved, in memory or to file, restore exactly the saved state.',
  over=['inputs', 'histories'], forall='all sequences of operations, rewards and metric values, smoothing constants and periods within the bounds',
  why='Tests check one save/load and one fixed run.',
  files=['coax/wrappers/_train_monitor.py'],
  mech=[('counters', 'TrainMonitor.reset/step'), ('metrics and periods', 'record_metrics, get_metrics, period'), ('snapshots', 'get_counters, set_counters, save_counters, load_counters')],
  note=B + '<=5 operations, <=6 episodes.'),
 dict(id='P09', title='Action wrappers always produce the corresponding element of the original Box',
  statement='The wrapper to the reals maps every real action to low+(high-low)*sigmoid(a), and the wrapper to bins maps every bin to a point inside that very bin of the original Box, component by component; the result always is an element of the original space. The original action is reported in the info, everything else is passed through, and invalid actions and configurations are refused.',
  over=['inputs', 'configurations'], forall='all actions, bounds of the Box, numbers of bins and random offsets within the bounds',
  why='Tests sample one action for one environment.',
  files=['coax/wrappers/_box_spaces.py', 'coax/_base/mixins/_add_orig_to_info.py'],
  mech=[('sigmoid rescaling', 'BoxActionsToReals'), ('bins', 'BoxActionsToDiscrete')],
  note=B + 'Four shapes of Box, symbolic bounds, actions and draws.'),
 dict(id='P10', title='Frame stacking and meta-policies see exactly the right observations',
  statement='With frame stacking every observation is the tuple of the n most recent frames of the current episode, oldest first, padded with the first frame after a reset, and it is not changed later. In the meta-policy environment a meta-action makes exactly the chosen arm act on the latest observation, and the lower-level action and its log-propensity are reported. Everything else is passed through unchanged.',
  over=['inputs', 'histories', 'configurations'], forall='all sequences of steps and resets, numbers of frames and choices of arms within the bounds',
  why='There are no tests for frame stacking across resets and none for meta-policies.',
  files=['coax/wrappers/_frame_stacking.py', 'coax/wrappers/_meta_policy.py'],
  mech=[('bounded deque of frames', 'FrameStacking'), ('dispatch to arms', 'MetaPolicyEnv.step')],
  note=B + '<=4 frames, <=5 operations, 4 arms, 3 meta steps.'),
 dict(id='P11', title='Every TD-learning algorithm bootstraps from exactly its documented target',
  statement='For every transition of a batch, the TD error of each TD-learning algorithm is its documented target minus the prediction: SARSA uses the next action, expected SARSA the policy average, Q-learning the greedy (or policy mode) value of the target network, double Q-learning selects with the target and evaluates with the online network, soft Q-learning uses tau*logsumexp, and the clipped variants take the minimum over all pairs of targets. The bootstrapped value is scaled by the bootstrap factor, target and prediction are mapped by the value transforms of the functions they come from, and predictions are evaluated in training mode, targets are not.',
  over=['inputs', 'configurations'], forall='all parameters, function states, returns, bootstrap factors, weights, actions and random draws, for type-1 and type-2 value functions, with and without target networks, within the bounds',
  why='The tests only check that one update changes or keeps parameters; wrong rows, wrong networks, wrong modes or missing transforms all pass.',
  files=['coax/td_learning/_base.py', 'coax/td_learning/_simple_td.py', 'coax/td_learning/_sarsa.py', 'coax/td_learning/_expectedsarsa.py', 'coax/td_learning/_qlearning.py', 'coax/td_learning/_doubleqlearning.py', 'coax/td_learning/_softqlearning.py', 'coax/td_learning/_clippeddoubleqlearning.py', 'coax/td_learning/_softclippeddoubleqlearning.py'],
  mech=[('target_func of each algorithm', 'coax/td_learning/*.py'), ('loss_func', 'coax/td_learning/_base.py')],
  technique=TECH_JX, note=B + 'Batches of 2, tabular function approximators over 3 states, 2-3 actions or a Box of size 1-2, mse loss.'),
 dict(id='P12', title='A TD update is exactly one gradient step on the weighted loss of its target',
  statement='An update of a TD-learning object moves the parameters of its value function by exactly one step of its optimizer along the gradient of the mean loss between target and prediction, each transition weighted by its own sample weight clipped to [0.1, 10]; the target (from which the policy regularizer is subtracted) is held constant, even if it is computed from the same parameters. Only the function state of the trained function advances, by one training pass; targets and policies are left alone. The reported loss and TD errors are those of that step.',
  over=['inputs', 'configurations'], forall='all parameters, function states, returns, sample weights and errors (all regions of clip and Huber loss) within the bounds',
  why='Tests compare parameters for inequality after an update.',
  files=['coax/td_learning/_base.py', 'coax/td_learning/_clippeddoubleqlearning.py', 'coax/value_losses/_losses.py', 'coax/regularizers/_base.py', 'coax/_core/base_func.py'],
  mech=[('loss_func, grads_and_metrics, update', 'coax/td_learning/_base.py'), ('mse, huber', 'coax/value_losses/_losses.py')],
  technique=TECH_JX, note=B + 'Batches of 2, tabular function approximators, sgd, bootstrap factors fixed (symbolic ones: P11).'),
 dict(id='P15', title='Categorical distributions are the softmax of their logits everywhere',
  statement='Mean, log-probability, entropy, cross entropy, KL divergence, mode and samples of the categorical distribution are those of softmax(logits): they are invariant under a constant shift of the logits, the divergence is zero for equal parameters, and the mode is the most likely category. Samples are the Gumbel-softmax relaxation of the perturbed logits, so that the selected category is the one whose perturbed logit is largest. Actions survive the round trip through pre- and postprocessing.',
  over=['inputs', 'configurations'], forall='all logits, variates, Gumbel draws, numbers of categories and temperatures within the bounds',
  why='Tests compare single random draws; an error in one term, axis or sign shows for particular logits only.',
  files=['coax/proba_dists/_categorical.py', 'coax/proba_dists/_base.py'],
  mech=[('closed formulas over log_softmax', 'CategoricalDist.__init__'), ('Gumbel-softmax', 'CategoricalDist.sample'), ('argmax', 'CategoricalDist.postprocess_variate')],
  technique=TECH_JX, note=B + '2-5 categories, batches of <=3; random draws are symbolic inputs.'),
 dict(id='P16', title='Normal and squashed normal distributions agree with their density',
  statement='Mean, mode, log-probability, entropy, cross entropy, KL divergence and samples of the normal distribution are those of independent normals with the given mean and log-variance, over all axes of the space; the squashed variant adds exactly the Jacobian of its bijection to the Box. Affine transforms give the distribution of the transformed variable. Variates handed to the environment always lie inside the space, and the maps between actions and variates are inverse to each other inside the space.',
  over=['inputs', 'configurations'], forall='all means, log-variances, variates and draws, for several shapes of Box, within the bounds',
  why='Tests check two densities for one shape; other shapes, clipping and bounds are not exercised.',
  files=['coax/proba_dists/_normal.py', 'coax/proba_dists/_squashed_normal.py'],
  mech=[('closed formulas', 'NormalDist.__init__'), ('tanh bijection', 'SquashedNormalDist')],
  technique=TECH_JX, note=B + 'Box shapes (), (1,), (2,), (2,2); batches of <=2; random draws are symbolic inputs.'),
 dict(id='P17', title='Distributional targets: projected categorical and shifted quantile values',
  statement='For a distribution over a discretised interval, an affine transform moves every atom by scale and shift, clips it to the interval and splits its probability between the two neighbouring atoms in inverse proportion to the distance: mass is conserved, the identity changes nothing, and expected values move accordingly when nothing is clipped. For quantile values the transform moves each value and leaves the fractions alone; sampled quantile fractions are increasing, lie inside (0,1) and are the midpoints of their bins. Value transforms are undone before and applied after.',
  over=['inputs', 'configurations'], forall='all logits, scales, shifts and value transforms within the bounds',
  why='Tests draw a histogram for a few fixed parameters; atoms hitting a grid point or a bound exactly need particular values.',
  files=['coax/proba_dists/_discretized_interval.py', 'coax/proba_dists/_empirical_quantile.py', 'coax/utils/_quantile_funcs.py'],
  mech=[('projection', 'DiscretizedIntervalDist.affine_transform'), ('shift of quantile values', 'EmpiricalQuantileDist.affine_transform')],
  technique=TECH_JX, note=B + '2-3 atoms (4 thorough), batches of <=2.'),
 dict(id='P19', title='Loss functions compute the documented loss and its gradient',
  statement='Each value loss equals its documented formula averaged over the batch and multiplied by the sample weights, is symmetric where documented, zero only for a perfect prediction, and its gradient is the derivative of that formula, including at the switch between quadratic and linear parts. The quantile Huber loss sums over target quantiles and averages over predicted quantiles and batch.',
  over=['inputs', 'configurations'], forall='all targets, predictions, weights, thresholds, quantile fractions and shapes within the bounds',
  why='Tests check the Huber loss on a few points only.',
  files=['coax/value_losses/_losses.py'],
  mech=[('formulas', 'mse, huber, logloss, logloss_sign, quantile_huber')],
  technique=TECH_JX, note=B + 'Shapes up to (3,) and (2,2), three quantiles.'),
 dict(id='P20', title='The log transform is an invertible odd increasing value transform',
  statement='The log transform maps x to sign(x)*scale*log(1+|x|/scale), its inverse function undoes it from both sides, and both are odd, strictly increasing and have the derivative of their formula. The scale must be positive.',
  over=['inputs', 'configurations'], forall='all real values and several scales within the bounds',
  why='Tests check the round trip on a few points.',
  files=['coax/value_transforms/_log_transform.py', 'coax/value_transforms/_base.py'],
  mech=[('pair of functions', 'LogTransform')],
  technique=TECH_JX, note=B + 'Values within +-40, scales 0.5 to 3.'),
 dict(id='P13', title='A policy update is exactly one gradient step on its documented objective',
  statement='An update of a policy objective moves the policy parameters by exactly one optimizer step along the gradient of the documented objective, averaged over the batch with every transition weighted by its own clipped sample weight: advantage times log-probability (vanilla policy gradient), the pessimistic clipped probability ratio (PPO) and the value of the reparametrized action (deterministic and soft policy gradients). Advantages and value functions are constants of that gradient, a regularizer is added with its own weight, and the gradient does not depend on the other rows. Only the policy state advances, by one training pass; the reported loss and metrics are those of that step.',
  over=['inputs', 'configurations'], forall='all parameters, function states, advantages, propensities, sample weights and random draws (all regions of the clips) within the bounds',
  why='Tests compare parameters for inequality after an update.',
  files=['coax/policy_objectives/_base.py', 'coax/policy_objectives/_vanilla_pg.py', 'coax/policy_objectives/_ppo_clip.py', 'coax/policy_objectives/_deterministic_pg.py', 'coax/policy_objectives/_soft_pg.py'],
  mech=[('objective_func of each objective', 'coax/policy_objectives/*.py'), ('loss, grads_and_metrics, update', 'coax/policy_objectives/_base.py')],
  technique=TECH_JX, note=B + 'Batches of 2, tabular policies and value functions over 3 states, 2 actions or a Box of size 1, sgd.'),
 dict(id='P14', title='Regularizers add the documented entropy or divergence of every transition',
  statement='The entropy regularizer of a transition is minus beta times the entropy of the distribution that the function gives for that transition, the KL regularizer is beta times its divergence from the priors (by default those of the distribution), with the value of beta at the time of use. The n-step entropy regularizer sums the discounted entropies at the selected steps and leaves out everything after the end of the episode. There is one term per transition, and the reported metrics are beta and the batch mean.',
  over=['inputs', 'histories', 'configurations'], forall='all parameters, priors, beta, chosen steps and places of the end of the episode within the bounds',
  why='Tests only check that regularized updates change parameters.',
  files=['coax/regularizers/_base.py', 'coax/regularizers/_entropy.py', 'coax/regularizers/_kl_div.py', 'coax/regularizers/_nstep_entropy.py'],
  mech=[('batch_eval, function', 'coax/regularizers/*.py')],
  technique=TECH_JX, note=B + 'Batches of 2, policies with 2 actions, value distributions with 3 atoms, up to 3 recorded steps (4 thorough).'),
 dict(id='P21', title='Function approximators give the same answers however they are asked',
  statement='Calling a (stochastic) value function, policy, reward function or transition model on a single observation gives what its network computes for that observation in inference mode with its current parameters and state, with the value transform undone: the value, mean, mode, sample with its log-propensity, or distribution parameters of exactly that state (and action). Asking for all actions at once, asking for one action, and the batched type-1 and type-2 views agree row by row whichever type the network has, pass on the training flag and the new function state, and calls change neither parameters nor state. A successor-state q-function is r(s,a) + gamma v(s\') of its three parts.',
  over=['inputs', 'configurations'], forall='all parameters, function states, states, actions, random draws and value transforms within the bounds',
  why='Tests compare shapes and types of the outputs; a wrong row, mode, state or missing transform passes.',
  files=['coax/_core/v.py', 'coax/_core/q.py', 'coax/_core/base_stochastic_func_type1.py', 'coax/_core/base_stochastic_func_type2.py', 'coax/_core/stochastic_v.py', 'coax/_core/stochastic_q.py', 'coax/_core/policy.py', 'coax/_core/transition_model.py', 'coax/_core/successor_state_q.py'],
  mech=[('__call__, mean, mode, dist_params', 'coax/_core/*.py'), ('function_type1, function_type2', 'coax/_core/q.py'), ('replicas', 'coax/_core/base_stochastic_func_type1.py')],
  technique=TECH_JX, note=B + 'Tables over 3 states and 2 actions (or a Box of size 1-2), 3 atoms, batches of 2.'),
 dict(id='P22', title='Value-based and random policies draw from exactly the documented distribution',
  statement='An epsilon-greedy policy selects every action with probability epsilon/n plus (1-epsilon) shared evenly between the actions of maximal value in that state; a Boltzmann policy has logits q(s,.)/temperature; changed epsilon, temperature or parameters take effect at once. Calls, mode, mean and distribution parameters are those of that distribution and change nothing. A random policy draws uniformly from the action space and reports the log-density of the uniform distribution.',
  over=['inputs', 'configurations'], forall='all values (with all patterns of ties), epsilon, temperatures, random draws and Box bounds within the bounds',
  why='Tests look at a few sampled actions; wrong probabilities under ties or for another state pass.',
  files=['coax/_core/value_based_policy.py', 'coax/_core/random_policy.py', 'coax/_core/base_stochastic_func_type2.py'],
  mech=[('func', 'coax/_core/value_based_policy.py'), ('__call__', 'coax/_core/random_policy.py')],
  technique=TECH_BOTH, note=B + '2-3 actions (4 thorough), q-functions of both types, deterministic, quantile and discretised.'),
 dict(id='P28', title='A model update is one gradient step on the loss of what happened',
  statement='An update of a reward function or transition model moves its parameters by exactly one optimizer step along the gradient of the chosen loss between its prediction for (S, A) and what happened in that transition: the transformed reward, or the preprocessed next state. Each transition counts with its own clipped sample weight; a stochastic model predicts through its reparametrized sample and may have a regularizer. The function state advances by one training pass and the reported losses are those of that step.',
  over=['inputs', 'configurations'], forall='all parameters, function states, rewards, sample weights and random draws within the bounds',
  why='Tests compare parameters for inequality after an update.',
  files=['coax/model_updaters/_model_updater.py', 'coax/_core/transition_model.py', 'coax/_core/reward_function.py'],
  mech=[('loss_func, update', 'coax/model_updaters/_model_updater.py')],
  technique=TECH_JX, note=B + 'Batches of 2, tables over 2-4 states and 2 actions, 2 atoms, sgd.'),
 dict(id='P23', title='Updates, soft updates, copies and restores compose without side effects',
  statement='Over any history of updates, soft updates of a target copy, copies, changes of the optimizer and restores, the parameters and function state of every object are those obtained by applying just these operations to that object: an update is one optimizer step with the optimizer state carried over from the last one, a soft update moves parameters and state of the target by the fraction tau towards the other object and leaves that one alone, and a copy keeps and answers with its own values. Parameters, states and optimizers of another tree structure, and soft updates from another class, are refused and change nothing.',
  over=['histories', 'inputs', 'configurations'], forall='all histories of 3 operations (5 thorough), parameters, gradients, states and tau within the bounds, for value functions, policies, models and their updaters',
  why='Tests make one update and compare parameters for inequality; aliasing and lost optimizer state need several operations.',
  files=['coax/_core/base_func.py', 'coax/_base/mixins/_copy.py', 'coax/td_learning/_base.py', 'coax/policy_objectives/_base.py', 'coax/model_updaters/_model_updater.py'],
  mech=[('soft_update, params, function_state', 'coax/_core/base_func.py'), ('apply_grads, optimizer, optimizer_state', 'coax/td_learning/_base.py'), ('copy', 'CopyMixin')],
  technique=TECH_JX, note=B + 'Tables over 2 states; sgd, momentum and weight decay.'),
 dict(id='P27', title='A distributional TD update moves the prediction towards the target law',
  statement='For a value function that predicts a distribution, a TD update is one optimizer step on the weighted cross entropy (categorical) or quantile Huber loss between the prediction for (S, A) and the target distribution: the law of Rn + In times the value predicted by the target network at the successor state, for the next, greedy or most pessimistic action as the algorithm says, with value transforms undone and redone and the policy regularizer subtracted. Each transition counts with its own clipped weight and nothing flows through the target. TD errors are the differences of the expected values; targets are left alone.',
  over=['inputs', 'configurations'], forall='all parameters, function states, rewards and sample weights within the bounds',
  why='Tests compare parameters for inequality after an update.',
  files=['coax/td_learning/_base.py', 'coax/td_learning/_simple_td.py', 'coax/td_learning/_sarsa.py', 'coax/td_learning/_qlearning.py', 'coax/td_learning/_doubleqlearning.py', 'coax/td_learning/_clippeddoubleqlearning.py', 'coax/td_learning/_softclippeddoubleqlearning.py'],
  mech=[('loss_func, _get_target_dist_params', 'coax/td_learning/_base.py'), ('target_func', 'coax/td_learning/*.py')],
  technique=TECH_JX, note=B + 'Batches of 2, 2 atoms or quantiles, 3 states, 2 actions, In = 1/2, no ties between greedy actions; greedy selection with quantile functions only.'),
 dict(id='P18', title='Composite distributions are products of independent leaf distributions',
  statement='For a composite space (nested Tuple and Dict, MultiDiscrete, MultiBinary) the log-probability, entropy, cross entropy and KL divergence are the sums over all leaves of those of the leaf distributions, and mean, mode and samples are those of each leaf with its own parameters and its own independent random draws. Affine transforms act on each leaf with its own scale, shift and value transform. Actions survive the round trip through pre- and postprocessing, for single rows and whole batches, in the format of the space.',
  over=['inputs', 'configurations'], forall='all parameters, variates, draws and actions within the bounds, for ten spaces',
  why='Tests look at shapes and types of samples for each space.',
  files=['coax/proba_dists/_composite.py', 'coax/proba_dists/_base.py'],
  mech=[('recursion over the structure', 'ProbaDist')],
  technique=TECH_JX, note=B + 'Up to 5 leaves, batches of <=2.'),
 dict(id='P24', title='Exploration noise, schedules and running averages follow their recursions',
  statement='A call of the Ornstein-Uhlenbeck noise returns the action plus the noise, clipped to the bounds, where the noise moves by theta*(mu-x)+sigma*eps in each call, component by component, starts at mu and returns to it on reset; the given action is not changed. A stepwise linear schedule takes exactly the given values at the given times, is linear between neighbouring ones and constant outside, and refuses times that do not ascend. A rolling average is the mean of the last n values, the exponential one its documented recursion with a warm start.',
  over=['inputs', 'histories', 'configurations'], forall='all actions, draws, bounds, noise parameters, schedules, times and sequences of values and resets within the bounds',
  why='Tests look at one schedule and one or two averages; the noise has no test at all.',
  files=['coax/utils/_action_noise.py', 'coax/utils/_array.py', 'coax/utils/_rolling.py'],
  mech=[('discretised process', 'OrnsteinUhlenbeckNoise.__call__'), ('piecewise interpolation', 'StepwiseLinearFunction'), ('deque and recursion', 'RollingAverage, ExponentialAverage')],
  note=B + 'Shapes (), (1,), (2,), (2,2); 4 calls (6 thorough); 2-5 points; windows of 1-4.'),
 dict(id='P25', title='Helpers on arrays, spaces and pytrees keep every entry where it belongs',
  statement='The random argmax (argmin) returns a maximiser (minimiser) of every row, ties broken by the draws; conversions between singles and batches, stacking, and splitting into chunks of sizes that are powers of two keep all rows in order; the default preprocessor encodes every element of a space leaf by leaf (one-hot, clipped to its own bounds) with a batch axis; and safe samples lie in their space. Synchronising shared parameters replaces each shared module by the weighted average over exactly those functions that have it and leaves the rest and the inputs alone. Frame differencing gives the backward differences of each order, and the gradient diagnostics are the largest magnitude, the euclidean norm and the quantiles over all entries.',
  over=['inputs', 'configurations'], forall='all arrays, patterns of ties, draws, batch sizes, spaces, elements, weights and tree structures within the bounds',
  why='Tests use one or two arrays per helper; wrong axes, rows, bounds or weights show for particular shapes only.',
  files=['coax/utils/_array.py'],
  mech=[('random tie breaking', 'argmax'), ('powers of two', 'chunks_pow2'), ('recursion over spaces', 'default_preprocessor, safe_sample'), ('weighted averages', 'sync_shared_params')],
  technique=TECH_BOTH, note=B + 'Rows of 2-4 entries, batch sizes up to 17 (33 thorough), ten spaces, up to 4 functions sharing parameters.'),
 dict(id='P26', title='Workers hand on every transition, state, metric and sample, once and unchanged',
  statement='In a rollout a worker passes each step of the episode to its trace exactly once, in order, with the observation before the action, the reward, the propensity and the end of the episode (terminated or truncated), and starts no episode once the shared step counter or the reward threshold is reached; the counter counts the steps of all workers taking turns. A learner repeats pull, sample, learn, push, always from the current state of the parameter store. Buffer, state, metric and attribute calls reach the parameter store unchanged, directly or through ray, and no batch is sampled before warmup and batch size are reached.',
  over=['inputs', 'histories', 'schedules'], forall='all rewards, propensities, episode lengths and endings, orders of two workers, warmups, batch sizes, and states pushed by others between updates, within the bounds',
  why='Workers have no tests: they run in separate processes.',
  files=['coax/_core/worker.py'],
  mech=[('episode loop', 'Worker.rollout'), ('loops and shared counter', 'Worker.rollout_loop, learn_loop'), ('delegation to the parameter store', 'Worker.buffer_*, pull_*, push_*')],
  note=B + 'Episodes of up to 4 steps, 2 workers taking turns between episodes, 3 updates; ray actors are replaced by a stand-in that carries out each call at once.'),
 dict(id='P29', title='Saved objects come back with the same behaviour',
  statement='An object written with dump or dumps and read back with load or loads behaves exactly like the original: parameters, states, counters, buffers and random keys are equal, and references within one saved object are preserved.',
  over=['inputs', 'histories'], forall='all objects of the library after any history of operations',
  why='Tests save and restore a few fresh objects.',
  files=['coax/utils/_misc.py', 'coax/utils/_jit.py'],
  mech=[('cloudpickle and lz4', 'dump, dumps, load, loads'), ('re-jitting', 'JittedFunc.__getstate__, __setstate__')],
  na='The behaviour lies in cloudpickle and lz4 (C code over byte strings) and in jax device buffers; none of these can be encoded for the solver, and symbolic values cannot pass through a byte stream. Encoding only the few Python lines around them would decide nothing. (Snapshots of the training monitor, which are plain Python, are part of P08.)'),
 dict(id='P30', title='The DeepMind-control adapter hands everything on, flat and unchanged',
  statement='An observation is all parts of the observation of the task, flattened and joined in order; actions and rewards are handed on unchanged, and an episode ends exactly when the task reports its last step. Observation and action space are boxes with one entry per entry of the specs, with the bounds of the specs entry by entry and unbounded where the spec is. A reset with a seed restarts the task with that seed, one without does not.',
  over=['inputs', 'histories', 'configurations'], forall='all values of observations, rewards, actions and bounds, layouts of rank 0 to 2 and sequences of resets and steps within the bounds',
  why='There are no tests of the adapter.',
  files=['coax/utils/_dmc_gym.py'],
  mech=[('step, reset', 'coax/utils/_dmc_gym.py'), ('flattening and bounds', 'flatten_obs, spec_to_box, extract_min_max')],
  note=B + '<=4 calls, <=3 parts; the control suite is a stand-in.'),
]
