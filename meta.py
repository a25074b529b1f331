"""Texts of the properties: the source of properties.jsonl and MANIFEST.json
(written by tools/gen.py)."""
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, quant, why, mech, note='', files=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, quant=quant,
        why=why, mech=mech, note=note,
        files=files or sorted({w.split(':')[0] for _, w in mech})))


def NA(id, title, statement, over, quant, why, mech, reason):
    P(id, title, statement, over, quant, why, mech)
    NOT_APPLICABLE.append((id, reason))


RB = 'chainerrl/replay_buffers/'

P('C01', 'Replay buffers store exactly the n-step windows of the experience',
  'After any sequence of appends and end-of-episode calls, a (prioritized) '
  'n-step replay buffer holds, for every recorded step, exactly one window '
  'that starts at that step and contains the up to n consecutive steps of '
  'the same episode and environment that follow it, in order and unaltered; '
  'windows shorter than n exist only where the episode ended. Windows never '
  'mix episodes or environments, and a full buffer drops the oldest first.',
  ['histories', 'inputs', 'configurations'],
  'all interleavings of up to four environments, terminal/stop positions and '
  'payload values within the stated number of appends; capacity and n',
  'tests append a few fixed episodes; the interleavings of environments, '
  'early stops and capacity wrap-around are combinatorial',
  [('append / stop_current_episode', RB + 'replay_buffer.py'),
   ('prioritized storage', RB + 'prioritized.py')])

P('C02', 'The random access queue behaves as a bounded list',
  'Every history of appends, extends, pops, item reads and item writes on '
  'the random access queue gives the results of the same history on a list '
  'that drops its oldest element when it exceeds its capacity, including '
  'negative indices and the errors for bad indices and empty pops. Sampling '
  'returns distinct stored elements.',
  ['histories', 'inputs'],
  'all operation sequences of the stated length, all indices, values and '
  'capacities',
  'the tests run one random operation mix; the amortised two-stack internals '
  'fail only for particular mixes and indices',
  [('RandomAccessQueue', 'chainerrl/misc/collections.py')])

P('C03', 'Episodic buffers keep complete episodes and count transitions',
  'Episodic replay buffers store exactly the finished episodes in order of '
  'completion, each with exactly its own transitions, report the number of '
  'episodes and stored transitions consistently, and drop whole oldest '
  'episodes when over capacity. Sampled episodes are distinct stored '
  'episodes or, with a maximum length, contiguous parts of them of that '
  'length.',
  ['histories', 'inputs', 'configurations'],
  'all append/terminal/stop histories over up to two environments, '
  'capacities, sample sizes and random draws within the bounds',
  'the tests use fixed episode layouts and sample a handful of draws',
  [('EpisodicReplayBuffer', RB + 'episodic.py'),
   ('random_subseq', 'chainerrl/misc/random.py')])

P('C04', 'Sum and min trees agree with their list of values',
  'After any sequence of item writes, appends and pops from the front, a sum '
  '(min) tree reports the sum (minimum) of the values it currently holds and '
  'reads back each value written. Drawing from the sum tree with a number '
  'between 0 and the total selects the value whose cumulative interval '
  'contains that number, and never an empty or discarded entry.',
  ['histories', 'inputs'],
  'all operation sequences of the stated length, arbitrary real values and '
  'draws',
  'tests compare a single random history; growth and shrinkage of the tree '
  'depend on the order and position of writes',
  [('TreeQueue/SumTreeQueue/MinTreeQueue', 'chainerrl/misc/prioritized.py')])

P('C05', 'Prioritized sampling draws items in proportion to their priority',
  'A prioritized buffer samples each stored item with probability equal to '
  'its priority over the total, without repetition within one sample, and '
  'reports that probability and the least probability correctly. New items '
  'get the largest priority given so far, priorities of sampled items change '
  'only to the values set for them, and the rule that every sample is '
  'followed by one priority update is enforced.',
  ['histories', 'inputs'],
  'all operation histories, priorities and draws within the bounds',
  'tests check frequencies of a few fixed priority vectors statistically',
  [('PrioritizedBuffer', 'chainerrl/misc/prioritized.py')])

P('C06', 'Priorities, importance weights and beta follow prioritized replay',
  'Setting errors on a prioritized replay buffer gives each sampled item the '
  'priority (clipped error + eps) ** alpha; samples carry the importance '
  'weight (P(i)/min P) ** -beta, normalised over the batch or the memory '
  'as configured (or (N P(i)) ** -beta unnormalised), so that normalised '
  'weights are in (0, 1]. Beta moves from its initial value to 1 linearly '
  'over the configured number of samples and stays there.',
  ['inputs', 'configurations', 'histories'],
  'all errors, clip limits, eps, alpha and beta in the stated ranges',
  'no test checks the weight or annealing formulas at all',
  [('PriorityWeightError', RB + 'prioritized.py'),
   ('PrioritizedBuffer.set_last_priority', 'chainerrl/misc/prioritized.py')])

P('C07', 'Batches built from replay describe the sampled transitions',
  'Converting sampled (n-step) transitions to a training batch yields, per '
  'sample and in order: its first state and action, the discounted sum of '
  'its rewards, its last next state (and next action), the discount gamma to '
  'the number of steps, and whether it ended at a terminal. Recurrent batches '
  'keep episodes as sequences of the same data.',
  ['inputs', 'configurations'],
  'all rewards, discounts, window lengths up to 3, terminal flags and batch '
  'sizes within the bounds',
  'tests use single fixed batches with one length',
  [('batch_experiences / batch_recurrent_experiences',
    'chainerrl/replay_buffer.py')])

P('C08', 'Saving and loading a replay buffer preserves its content',
  'A buffer loaded from a file another buffer saved holds the same '
  'transitions, episodes and priorities in the same order as the saved one '
  'and nothing of what it held before. From then on both behave alike under '
  'the same appends, and neither affects the other.',
  ['histories', 'inputs', 'configurations'],
  'all append/terminal histories within the bounds before saving, all buffer '
  'kinds',
  'tests save one fixed history and compare a few fields',
  [('save/load', RB + 'replay_buffer.py'), ('save/load', RB + 'episodic.py'),
   ('contents', RB + 'prioritized.py')])

P('C09', 'Replay updates run exactly when due',
  'Given a step number, the replay updater performs its configured number of '
  'updates exactly when enough experience is stored and the step is a '
  'multiple of the update interval, and otherwise none. Each update receives '
  'the configured number of distinct transitions (or episodes, cut to the '
  'configured length).',
  ['histories', 'configurations'],
  'all step numbers, start sizes, intervals, batch sizes and growth '
  'histories within the bounds',
  'tests use one configuration per agent and never count updates',
  [('ReplayUpdater.update_if_necessary', 'chainerrl/replay_buffer.py')])

EX = 'chainerrl/experiments/'

P('C10', 'The training loop feeds the agent its experience faithfully',
  'In single-environment training the agent receives each observation and '
  'reward exactly as the environment produced them, its actions are executed '
  'unchanged, and an episode is ended (with the last observation, reward and '
  'terminal flag) exactly on termination, a reset request, the length limit '
  'or the last step. Step hooks, checkpoints and evaluations happen exactly '
  'at their steps, training stops at the step limit or when the target score '
  'is reached, and the agent is saved at the end or, if any exception '
  'interrupts training, at that point before the exception propagates.',
  ['histories', 'inputs', 'crash_points', 'configurations'],
  'all reward, terminal and reset sequences, limits, offsets, frequencies, '
  'scores and fault positions within the bounds',
  'tests run a few mock episodes of fixed shape; faults are injected nowhere',
  [('train_agent', EX + 'train_agent.py'), ('Evaluator', EX + 'evaluator.py')])

P('C11', 'Batch training feeds every environment\'s experience faithfully',
  'In batch training the agent acts on the current observations of all '
  'environments and observes exactly their resulting observations, rewards, '
  'terminal and reset flags; exactly the environments whose episodes ended '
  'are reset. Global steps count every environment\'s step, hooks, '
  'checkpoints and evaluations happen exactly at their steps, training stops '
  'at the step limit or the target score, and the agent is saved at the end '
  'or when an exception interrupts training.',
  ['histories', 'inputs', 'crash_points', 'configurations'],
  'all reward, terminal and reset sequences, limits, offsets, frequencies, '
  'scores and fault positions within the bounds',
  'tests run mock vector environments with one fixed pattern of episode ends',
  [('train_agent_batch', EX + 'train_agent_batch.py'),
   ('Evaluator', EX + 'evaluator.py')])

P('C12', 'Asynchronous training counts, evaluates and stops once globally',
  'Under every interleaving of the worker processes, each environment step '
  'gets its own global step number, hooks see every number once, training '
  'stops for all workers once the limit or the target score is reached, and '
  'the final and the successful agent are each saved at most once. No '
  'evaluation slot is used twice, the best score and best agent reflect the '
  'evaluations made, every worker sees its own episodes in order, and an '
  'exception in one worker does not disturb the others.',
  ['schedules', 'crash_points', 'histories'],
  'all interleavings of two workers at their accesses to shared objects, all '
  'terminal flags, scores and fault positions within the bounds',
  'tests run real processes and see one schedule per run',
  [('train_loop / train_agent_async', EX + 'train_agent_async.py'),
   ('AsyncEvaluator', EX + 'evaluator.py')])

P('C13', 'Evaluation returns the undiscounted returns of whole episodes',
  'Evaluation runs exactly the requested number of episodes or steps, cuts '
  'episodes at the length limit, and returns the sum of rewards of each '
  'finished episode (of the unfinished one if there is no other). With '
  'several environments the episodes are counted in the order they were '
  'started, so that short episodes are not favoured, and the agent observes '
  'every step and a final reset; the reported mean, median, deviation and '
  'extremes are those of these returns.',
  ['histories', 'inputs', 'configurations'],
  'all reward, terminal and reset sequences and length limits within the '
  'bounds',
  'tests use fixed mock episodes and a few lengths',
  [('run_evaluation_episodes / batch_run_evaluation_episodes / '
    'eval_performance', EX + 'evaluator.py')])

P('C14', 'Evaluations are scheduled by step number and keep the best agent',
  'An evaluator evaluates exactly when the step number has passed a multiple '
  'of the interval not yet evaluated, returns the score of that evaluation '
  'and nothing otherwise, and appends one line of statistics per evaluation '
  'after one header line. The best score is the maximum so far and the agent '
  'is saved as best exactly when the score strictly improves it (if saving '
  'is enabled).',
  ['histories', 'inputs', 'configurations'],
  'all step number sequences, intervals, offsets and scores in the bounds',
  'tests call the evaluators at a handful of hand-picked steps',
  [('Evaluator / AsyncEvaluator', EX + 'evaluator.py')])

P('C15', 'Collected demonstrations are exactly what the agent experienced',
  'Collecting demonstrations writes one record per environment step with the '
  'observation, action, reward, next observation, terminal flag and info of '
  'that step, in order, for exactly the requested number of steps or '
  'episodes. Episodes end on termination, a reset request or the length '
  'limit, and the agent is told about every end.',
  ['histories', 'inputs', 'configurations'],
  'all reward, terminal and reset sequences and length limits within the '
  'bounds',
  'tests use one mock environment without length limit or reset request',
  [('collect_demonstrations', EX + 'collect_demos.py')])

EN = 'chainerrl/envs/'
WR = 'chainerrl/wrappers/'

P('C16', 'Vector environments behave like their members stepped one by one',
  'Stepping a vector environment steps every member exactly once with its own '
  'action and returns its own observation, reward, terminal flag and info in '
  'order; a masked reset resets exactly the members whose mask is false and '
  'keeps the others\' last observation; seeding, spaces and closing are passed '
  'on to the members. Both the serial and the multi-process implementation '
  'agree with this.',
  ['histories', 'inputs', 'configurations'],
  'all reward, terminal, reset mask and action values and operation '
  'sequences within the bounds',
  'tests compare both implementations on two Gym tasks with random actions',
  [('SerialVectorEnv', EN + 'serial_vector_env.py'),
   ('MultiprocessVectorEnv', EN + 'multiprocess_vector_env.py')],
  note='the worker function of MultiprocessVectorEnv runs in the same process '
       'over in-process pipes')

P('C17', 'Stacked observations are the last frames of the current episode',
  'A frame-stacking wrapper returns, after every step and reset, the last k '
  'frames of the current episode, oldest first, padded with the first frame; '
  'rewards, terminal flags and infos pass through unchanged. With a vector '
  'environment each member has its own stack, a masked reset affects only the '
  'reset members, and observations handed out earlier never change.',
  ['histories', 'inputs', 'configurations'],
  'all frames, stack heights and sequences of steps and (masked) resets '
  'within the bounds',
  'tests compare the two wrappers on a mock with one sequence of resets',
  [('FrameStack / LazyFrames', WR + 'atari_wrappers.py'),
   ('VectorFrameStack', WR + 'vector_frame_stack.py')])

P('C18', 'Environment wrappers change only what they document',
  'ContinuingTimeLimit only requests a reset from the limit on (never marks '
  'the state terminal), CastObservation only casts, NormalizeActionSpace maps '
  '[-1, 1]^n affinely onto the original bounds, RandomizeAction replaces an '
  'action with the given probability by a uniformly random one, ScaleReward '
  'only scales the reward, and Render only renders once after each operation. '
  'Everything else (actions, observations, rewards, terminal flags, infos) '
  'passes through unchanged and inputs are not modified.',
  ['histories', 'inputs', 'configurations'],
  'all actions, observations, rewards, flags, bounds, limits and random draws '
  'within the bounds',
  'tests use a few Gym tasks and fixed parameters',
  [('ContinuingTimeLimit', WR + 'continuing_time_limit.py'),
   ('CastObservation', WR + 'cast_observation.py'),
   ('NormalizeActionSpace', WR + 'normalize_action_space.py'),
   ('RandomizeAction', WR + 'randomize_action.py'),
   ('ScaleReward', WR + 'scale_reward.py'),
   ('Render', WR + 'render.py')])

P('C19', 'The Atari wrappers follow the DeepMind evaluation protocol',
  'Resets start with 1 to noop_max no-ops (and fire when asked), never step a '
  'finished game and return the observation of the running game; losing a '
  'life ends the episode without restarting the game and the game restarts '
  'exactly when it is over; frame skipping repeats the action, sums the '
  'rewards, stops at the end and returns the pixelwise maximum of the last '
  'two frames; rewards are clipped to their sign and pixels scaled to [0, 1]. '
  'make_atari and wrap_deepmind compose exactly the wrappers asked for.',
  ['histories', 'inputs', 'configurations'],
  'all rewards, lives, terminal flags, reset requests, pixels and random '
  'draws within the bounds',
  'tests cover FrameStack only',
  [('NoopResetEnv, FireResetEnv, EpisodicLifeEnv, MaxAndSkipEnv, '
    'ClipRewardEnv, ScaledFloatFrame, FlickerFrame, make_atari, '
    'wrap_deepmind', WR + 'atari_wrappers.py')])

P('C20', 'The ALE environment plays whole games frame by frame',
  'Each step repeats the chosen legal action for frame_skip frames, stopping '
  'at the first terminal one, and returns the sum of rewards; the episode is '
  'terminal on game over (or, if configured, on a lost life); the state is '
  'the last n screens, the newest being the luminance of the maximum of the '
  'last two frames. A reset starts a new game exactly when the last is over, '
  'performs a random number of null actions and leaves a running game.',
  ['histories', 'inputs', 'configurations'],
  'all rewards, lives and game ends per frame, frame skips and settings '
  'within the bounds',
  'tests play Breakout with random actions and check shapes',
  [('ALE', EN + 'ale.py')],
  note='the emulator is a stand-in; OpenCV is used on concrete images only')

P('C21', 'The ABC environment implements its documented dynamics',
  'In state n exactly action n advances; completing the sequence gives reward '
  '1 and ends the episode (or restarts in the non-episodic setting), a wrong '
  'action gives 0 and ends the episode (or stays); observations are one-hot, '
  'shifted by the offset of the episode when partially observable; continuous '
  'actions are clipped and act through softmax (or argmax if deterministic).',
  ['histories', 'inputs', 'configurations'],
  'all action sequences and random draws, problem sizes and settings within '
  'the bounds',
  'tests run a few fixed trajectories',
  [('ABC', EN + 'abc.py')])

P('C22', 'The monitor records every episode once',
  'The Monitor wrapper passes steps through unchanged and its statistics '
  'contain exactly one length and one return for every episode with at least '
  'one step, in order, including episodes reset before their end and the last '
  'one at close; stepping before a reset or after the end is refused; the '
  'monitor mode is kept.',
  ['histories', 'inputs'],
  'all reward and terminal sequences and positions of resets within the '
  'bounds',
  'one test runs CartPole and counts files',
  [('Monitor / _StatsRecorder', WR + 'monitor.py')])

P('C23', 'Environment modifiers and reward filters do what they say',
  'Time limits, action repetition, action and reward filters, reward clipping '
  'and rendering change exactly the documented quantity of each step and pass '
  'everything else through. The reward filters subtract the exponential '
  'moving average of the rewards and divide by the moving deviation, whose '
  'variance is bounded below by eps.',
  ['histories', 'inputs', 'configurations'],
  'all rewards, actions, terminal flags and parameters within the bounds',
  'these modules have no tests beyond examples',
  [('make_*', 'chainerrl/misc/env_modifiers.py'),
   ('AverageRewardFilter, NormalizedRewardFilter',
    'chainerrl/misc/reward_filter.py')])

P('C24', 'Explorers and schedules follow their documented distributions',
  'Epsilon-greedy explorers take the random action with probability epsilon '
  'and the greedy one otherwise, with epsilon interpolated linearly over '
  'decay_steps and constant afterwards; Boltzmann samples from the softmax of '
  'action values over T; the additive explorers add Gaussian or '
  'Ornstein-Uhlenbeck noise (clipped if asked) without modifying the greedy '
  'action; LinearInterpolationHook sets the linearly interpolated value.',
  ['inputs', 'histories', 'configurations'],
  'all random draws, step numbers, action values and parameters within the '
  'bounds',
  'tests count random actions over many draws or check a few steps',
  [('explorers', 'chainerrl/explorers/epsilon_greedy.py'),
   ('Boltzmann', 'chainerrl/explorers/boltzmann.py'),
   ('AdditiveGaussian', 'chainerrl/explorers/additive_gaussian.py'),
   ('AdditiveOU', 'chainerrl/explorers/additive_ou.py'),
   ('LinearInterpolationHook', EX + 'hooks.py')])

AG = 'chainerrl/agents/'

P('C25', 'Agents record exactly the transitions they experienced',
  'An off-policy agent driven by observations and rewards (one at a time or '
  'in batches) acts greedily or with its explorer\'s action and appends to '
  'its replay buffer exactly the experienced transitions: state, the action '
  'it returned, the reward and next state that followed and whether that '
  'state was terminal, once each, in order and per environment; the end of '
  'an episode or a reset ends it in the buffer. Evaluation records nothing.',
  ['histories', 'inputs', 'configurations'],
  'all observations, rewards, actions, terminal and reset flags of every '
  'history within the bounds, for every off-policy agent class',
  'tests only check that training on a toy environment works',
  [('DQN family', AG + 'dqn.py'), ('DDPG', AG + 'ddpg.py'),
   ('PGT', AG + 'pgt.py'), ('TD3', AG + 'td3.py'),
   ('SoftActorCritic', AG + 'soft_actor_critic.py'),
   ('SARSA', AG + 'sarsa.py')])

P('C26', 'DQN-family updates follow the gradient of their documented loss',
  'For every batch, an update of DQN, DoubleDQN, SARSA, ResidualDQN, AL, PAL, '
  'DoublePAL and DPP yields the loss and parameter gradients of its '
  'documented target: bootstrapping from the target model\'s value of the '
  'next state (selected per algorithm), discounted by gamma^n, none after a '
  'terminal state, errors accumulated as documented, clipped or not, weighted '
  'by importance weights; reported priorities errors are absolute TD errors.',
  ['inputs', 'configurations'],
  'all parameters of the models (tables over states), rewards, discounts, '
  'actions, terminal flags and weights within the bounds',
  'tests check shapes, one DQN loss value and learning on a toy problem',
  [('DQN', AG + 'dqn.py'), ('DoubleDQN', AG + 'double_dqn.py'),
   ('SARSA', AG + 'sarsa.py'), ('ResidualDQN', AG + 'residual_dqn.py'),
   ('AL', AG + 'al.py'), ('PAL', AG + 'pal.py'),
   ('DoublePAL', AG + 'double_pal.py'), ('DPP', AG + 'dpp.py')])

P('C27', 'Distributional losses match their definitions',
  'The categorical projection conserves probability and mean (up to the '
  'support\'s range) by splitting each atom\'s mass between its neighbours; '
  'CategoricalDQN and its double variant minimise the (weighted) cross '
  'entropy against the projected target distribution of the greedy next '
  'action; IQN and DoubleIQN minimise the documented quantile Huber loss '
  'over all pairs of current and target quantiles.',
  ['inputs', 'configurations'],
  'all targets, distributions, quantiles, rewards, terminal flags and weights '
  'within the bounds',
  'tests compare a few projections and losses on random arrays',
  [('_apply_categorical_projection, CategoricalDQN',
    AG + 'categorical_dqn.py'),
   ('CategoricalDoubleDQN', AG + 'categorical_double_dqn.py'),
   ('IQN', AG + 'iqn.py'), ('DoubleIQN', AG + 'double_iqn.py')])

P('C28', 'Actor-critic updates from replay follow their documented targets',
  'DDPG, PGT, TD3 and SoftActorCritic updates give critic gradients of the '
  'squared error to the documented n-step bootstrapped target (target '
  'networks, clipped smoothing noise and minimum of two critics for TD3, '
  'entropy term for SAC), policy gradients through the critic, the '
  'temperature gradient, the delay of TD3\'s policy updates, and as many '
  'updates per occasion as n_times_update says.',
  ['inputs', 'configurations', 'histories'],
  'all parameters of the models (tables over states), rewards, discounts, '
  'actions, noise, terminal flags and step counts within the bounds',
  'tests check that these agents learn a toy problem',
  [('DDPG', AG + 'ddpg.py'), ('PGT', AG + 'pgt.py'), ('TD3', AG + 'td3.py'),
   ('SoftActorCritic', AG + 'soft_actor_critic.py')])

P('C29', 'Target networks and gradients synchronise exactly as configured',
  'copy_param makes the target\'s parameters and batch statistics equal the '
  'source\'s, soft_copy_param moves them exactly the fraction tau, copy_grad '
  'copies gradients; neither changes the source nor aliases its arrays; '
  'agents with target networks synchronise at exactly the configured '
  'intervals of steps and in the configured way.',
  ['inputs', 'histories', 'configurations'],
  'all values of the parameters, tau and intervals within the bounds',
  'tests compare one copy of one link',
  [('copy_param', 'chainerrl/misc/copy_param.py'), ('DQN', AG + 'dqn.py'),
   ('DDPG', AG + 'ddpg.py'), ('PGT', AG + 'pgt.py')])

P('C30', 'Asynchronous workers share one set of parameters',
  'Arrays extracted from a link or optimizer as shared and set on another '
  'worker\'s copy alias: an update by any worker is seen by every other, for '
  'parameters, persistent values and optimizer states, under the names they '
  'belong to, with the values they had when sharing began. Workers of A3C, '
  'NSQ, ACER and PCL share what they must and keep their own model until they '
  'synchronize.',
  ['inputs', 'histories'],
  'all values of all parameters and states, every order of writes and updates '
  'within the bounds',
  'tests check one parameter of one link',
  [('async_', 'chainerrl/misc/async_.py'),
   ('set_shared_objects', 'chainerrl/experiments/train_agent_async.py'),
   ('shared_attributes', AG + 'a3c.py'), ('shared_attributes', AG + 'nsq.py'),
   ('shared_attributes', AG + 'acer.py'), ('shared_attributes', AG + 'pcl.py'),
   ('namedpersistent', 'chainerrl/misc/namedpersistent.py')])

P('C31', 'A3C, n-step Q and A2C use n-step returns of what happened',
  'Every t_max steps or at the end of an episode A3C, NSQ and A2C update with '
  'the documented gradients for the discounted n-step returns of the rewards '
  'actually received (bootstrapped from the model only where the episode goes '
  'on; GAE for A2C if asked), attribute each return to the action taken in '
  'that state, apply gradients to the shared model and take its parameters '
  'back, for every pattern of episode ends and resets.',
  ['histories', 'inputs', 'configurations'],
  'all rewards, model parameters, discounts, terminal and reset flags of every '
  'history within the bounds',
  'tests check that these agents learn a toy problem',
  [('A3C', AG + 'a3c.py'), ('NSQ', AG + 'nsq.py'), ('A2C', AG + 'a2c.py')])

P('C32', 'REINFORCE follows the episodic policy gradient',
  'REINFORCE\'s gradient is that of minus the sum over steps of return-to-go '
  'times log probability (plus entropy bonus), averaged over exactly the '
  'configured number of episodes since the last update, whatever their '
  'lengths.',
  ['histories', 'inputs', 'configurations'],
  'all rewards, log densities, episode lengths and batch sizes within the '
  'bounds', 'tests check that it learns a toy problem',
  [('REINFORCE', AG + 'reinforce.py')])

P('C33', 'PPO and TRPO learn from exactly the transitions experienced',
  'For every pattern of episode ends, resets and update intervals, '
  'interleaved over environments, the dataset PPO and TRPO update on holds '
  'each experienced transition once, in order, under its own episode, with '
  'generalized advantage estimates and value targets computed by their '
  'definition from the predictions of the model (fed with the right recurrent '
  'history and normalized observations), bootstrapped except after terminal '
  'states.',
  ['histories', 'inputs', 'configurations'],
  'all rewards, values, discounts, flags of every history within the bounds',
  'tests compare the advantages of two fixed episodes and learn a toy problem',
  [('PPO, _add_advantage_and_value_target_to_episodes', AG + 'ppo.py'),
   ('TRPO', AG + 'trpo.py')])

P('C34', 'PPO minimises its documented clipped objective in minibatches',
  'PPO\'s gradients are those of the clipped surrogate, clipped or plain value '
  'loss and entropy bonus with advantages standardized over the dataset; '
  'every epoch visits every transition once in minibatches of the configured '
  'size (whole subsequences within the length limit, for recurrent models); '
  'explained variance is as defined.',
  ['inputs', 'schedules', 'configurations'],
  'all probabilities, values, advantages, coefficients, all shuffles within '
  'the bounds',
  'tests check that it learns a toy problem',
  [('PPO', AG + 'ppo.py')])

P('C35', 'TRPO\'s steps: natural gradient, trust region, value regression',
  'TRPO\'s policy step goes along the natural gradient of the standardized '
  'surrogate gain, with the largest of the halved step sizes that raises the '
  'gain within the KL limit, and leaves the policy as it was if there is none; '
  'the value function is fitted to the targets, visiting every transition once '
  'per epoch; conjugate_gradient solves its linear system.',
  ['inputs', 'configurations'],
  'all parameters, advantages, step lengths and matrix entries within the '
  'bounds',
  'tests check that it learns a toy problem',
  [('TRPO', AG + 'trpo.py'),
   ('conjugate_gradient', 'chainerrl/misc/conjugate_gradient.py')])

P('C36', 'PCL minimises the path consistency error of what it experienced',
  'PCL\'s gradients are those of the squared consistency errors of all '
  'sub-paths within the rollout length, online for each segment of experience '
  '(bootstrapped unless it ended in a terminal state) and from replay for each '
  'sampled episode with its own weight, for stateless and recurrent models; '
  'every transition is stored once with its behaviour policy, and replay '
  'happens when configured.',
  ['histories', 'inputs', 'configurations'],
  'all rewards, parameters, weights, discounts and episode ends within the '
  'bounds',
  'tests check that it learns a toy problem',
  [('PCL', AG + 'pcl.py')])

P('C37', 'ACER follows Retrace targets, truncation and trust region',
  'ACER\'s gradients are those of the paper: Retrace targets (and Q_opc), '
  'truncated importance weights with bias correction, trust region towards '
  'the average policy, entropy bonus, online and replayed, for discrete and '
  'continuous actions; the shared model moves by the local gradients, local '
  'and average models follow it, and transitions are stored once with their '
  'behaviour policy.',
  ['histories', 'inputs', 'configurations'],
  'all rewards, values, policies, behaviour policies, thresholds and episode '
  'ends within the bounds',
  'tests compare parts of the loss at random points and learn a toy problem',
  [('ACER', AG + 'acer.py')])

P('C38', 'Action values: greedy actions attain the reported maximum',
  'For every kind of action value, greedy actions, max, evaluation of given '
  'actions, and the distributional and quadratic parameterisations agree with '
  'each other and with their definitions, row by row, and so do their '
  'gradients.',
  ['inputs'],
  'all values, supports, coefficient matrices, bounds and actions within the '
  'bounds',
  'tests use a few random arrays',
  [('ActionValue classes', 'chainerrl/action_value.py')])

P('C39', 'Distributions: probabilities, entropies and KL are consistent',
  'Every action distribution has normalised probabilities that grow with the '
  'logits, log_prob, entropy and KL divergence that follow from them, a most '
  'probable action that is most probable, samples within its support, copies '
  'that are cut from the graph, and parameters that describe it.',
  ['inputs', 'schedules'],
  'all logits, temperatures, minimum probabilities, means, variances, points '
  'and noise within the bounds',
  'tests compare with sampling at a few random parameters',
  [('Distribution classes', 'chainerrl/distribution.py'),
   ('mellowmax', 'chainerrl/functions/mellowmax.py')])

P('C40', 'Functions compute what they say, and backpropagate accordingly',
  'The library\'s own differentiable functions (tanh bounds, inverted '
  'gradients, lower triangular matrices, mellowmax, gradient scaling, sums of '
  'arrays, weighted or not) have the documented values and the derivatives '
  'of those values (or the documented gradient) for every incoming gradient.',
  ['inputs'],
  'all inputs, ranges, coefficients and incoming gradients within the bounds',
  'tests check numerically at random points',
  [('functions', 'chainerrl/functions/__init__.py'),
   ('mellowmax', 'chainerrl/functions/mellowmax.py'),
   ('invert_gradients', 'chainerrl/functions/invert_gradients.py')])

P('C41', 'Running normalization follows everything it has experienced',
  'EmpiricalNormalization\'s mean and standard deviation are those of all '
  'values it was given, however batched, until its learning limit; it '
  'normalizes by them, inverts itself, clips as configured, learns nothing '
  'when told not to, and goes on identically after being saved and loaded. '
  'Reward filters use the moving averages they document.',
  ['histories', 'inputs'],
  'all values, limits and thresholds within the bounds',
  'tests compare with one long random sample',
  [('EmpiricalNormalization', 'chainerrl/links/empirical_normalization.py'),
   ('reward filters', 'chainerrl/misc/reward_filter.py')])

P('C42', 'Recurrent models treat each sequence of a batch on its own',
  'A stateless recurrent model (sequential, branched, nested; RNN, LSTM, GRU) '
  'gives each sequence of a batch, of whatever lengths, the outputs and state '
  'it gets when processed alone, in either output mode and carried on step by '
  'step; masking resets exactly the given sequences, and states taken out and '
  'joined again (with fresh ones) continue as before.',
  ['inputs', 'configurations'],
  'all weights, inputs and states, sets of masked sequences and orders of '
  'joining within the bounds',
  'tests compare random numbers for a few layouts',
  [('StatelessRecurrent', 'chainerrl/links/stateless_recurrent.py'),
   ('StatelessRecurrentSequential',
    'chainerrl/links/stateless_recurrent_sequential.py'),
   ('StatelessRecurrentBranched',
    'chainerrl/links/stateless_recurrent_branched.py')])

P('C43', 'Recurrent state is kept, reset, restored and cut exactly',
  'For any mix of calls, resets, saves, restores, unchaining and nested '
  'state_kept / state_reset contexts over models of any nesting, every output '
  'is that of the inputs its state stands for; a context gives back the '
  'state also when left by an exception; gradients through time stop exactly '
  'where the history was unchained.',
  ['histories', 'inputs', 'faults'],
  'all weights, inputs and orders of operations within the bounds',
  'tests run a fixed sequence on a few models',
  [('get_state, set_state, state_kept', 'chainerrl/recurrent.py'),
   ('Sequence', 'chainerrl/links/sequence.py'),
   ('Branched', 'chainerrl/links/branched.py')])

P('C44', 'A saved agent, loaded, goes on as the saved one would',
  'Saving and loading any agent (or any object of saved attributes, nested, '
  'absent, shared) brings back every saved parameter and optimizer state, '
  'also over an older save, from before the first update and into an agent '
  'in use: the loaded agent takes the same actions and its next update has '
  'the same result; cyclic structures are refused; saving changes nothing.',
  ['histories', 'inputs', 'configurations'],
  'all parameters, optimizer states and rewards within the bounds; 15 agent '
  'classes',
  'tests compare a few parameters of a few agents',
  [('AttributeSavingMixin', 'chainerrl/agent.py'),
   ('saved_attributes', AG + 'dqn.py'), ('load', AG + 'a3c.py'),
   ('load', AG + 'acer.py'), ('load', AG + 'nsq.py'),
   ('load', AG + 'pcl.py')])

P('C45', 'Ready-made networks compute the function they document',
  'MLP, MLPBN, noisy linear layers, Sequence, Branched, the Q-functions, '
  'dueling Q-function, policies and value functions compute exactly the '
  'layered function their arguments describe: number of hidden layers and '
  'their nonlinearity, last-layer bias, hidden sizes, duel of value and mean '
  'advantage, factorized noise of the stated form, scaling of actions to the '
  'stated bounds, and variances of the stated parameterisation.',
  ['inputs', 'configurations'],
  'all parameters, inputs and noise draws within the bounds; a grid of '
  'constructor arguments',
  'tests check output shapes and types',
  [('MLP', 'chainerrl/links/mlp.py'), ('MLPBN', 'chainerrl/links/mlp_bn.py'),
   ('FactorizedNoisyLinear', 'chainerrl/links/noisy_linear.py'),
   ('to_factorized_noisy', 'chainerrl/links/noisy_chain.py'),
   ('Sequence', 'chainerrl/links/sequence.py'),
   ('Branched', 'chainerrl/links/branched.py'),
   ('FCStateQFunctionWithDiscreteAction',
    'chainerrl/q_functions/state_q_functions.py'),
   ('FCSAQFunction', 'chainerrl/q_functions/state_action_q_functions.py'),
   ('DuelingDQN', 'chainerrl/q_functions/dueling_dqn.py'),
   ('FCDeterministicPolicy', 'chainerrl/policies/deterministic_policy.py'),
   ('FCGaussianPolicy', 'chainerrl/policies/gaussian_policy.py'),
   ('FCSoftmaxPolicy', 'chainerrl/policies/softmax_policy.py'),
   ('FCVFunction', 'chainerrl/v_functions/v_functions.py')])

P('C46', 'Optimizer, weight decay and initializers follow their formulas',
  'RMSpropAsync steps by lr*g/sqrt(ms+eps) with ms the decayed mean square of '
  'all gradients so far, in place, never longer than lr/sqrt(1-alpha); '
  'NonbiasWeightDecay adds rate*p to the gradient of every parameter not '
  'named b; Orthogonal gives a scaled orthogonal system or refuses; '
  'VarianceScalingConstant and init_like_torch stay at or within their '
  'fan-in bounds.',
  ['inputs', 'histories', 'configurations'],
  'all parameters, gradients, states, hyperparameters and draws within the '
  'bounds',
  'tests train a toy model, or do not cover these at all',
  [('RMSpropAsyncRule', 'chainerrl/optimizers/rmsprop_async.py'),
   ('NonbiasWeightDecay', 'chainerrl/optimizers/nonbias_weight_decay.py'),
   ('Orthogonal', 'chainerrl/initializers/orthogonal.py'),
   ('VarianceScalingConstant', 'chainerrl/initializers/constant.py'),
   ('init_like_torch', 'chainerrl/misc/init_like_torch.py')])

P('C47', 'Agents see observations only through phi and batch_states',
  'Given a feature extractor phi and (where accepted) a batching function '
  'batch_states, every agent uses them, and nothing else, wherever it looks '
  'at an observation - acting, evaluating, single or batched, and every '
  'update: with opaque observations it acts and learns exactly as with the '
  'features themselves.',
  ['inputs', 'configurations'],
  'all parameters and rewards within the bounds; 15 agent classes',
  'tests use the default batch_states and observations that are arrays',
  [('batch_experiences', 'chainerrl/replay_buffer.py'),
   ('batch_states', 'chainerrl/misc/batch_states.py'),
   ('update', AG + 'ddpg.py'), ('update', AG + 'td3.py'),
   ('update', AG + 'soft_actor_critic.py'), ('update', AG + 'dqn.py'),
   ('_update', AG + 'trpo.py'), ('_update', AG + 'ppo.py'),
   ('act', AG + 'acer.py'), ('act', AG + 'pcl.py'), ('act', AG + 'nsq.py')])

P('C48', 'Worker processes run once each, with random numbers of their own',
  'run_async starts one process per index, all before waiting for any, waits '
  'for every one, seeds each with a seed of its own so that no two draw the '
  'same random numbers, and warns about exactly those that ended abnormally; '
  'set_random_seed gives every random source the seed it was given.',
  ['inputs', 'faults', 'configurations'],
  'all exit codes, seeds and draws of the parent within the bounds',
  'tests count increments of a shared counter',
  [('run_async', 'chainerrl/misc/async_.py'),
   ('set_random_seed', 'chainerrl/misc/random_seed.py')])

P('C49', 'Recurrent learners value every step by the whole episode so far',
  'A recurrent agent decides and learns by what its network makes of the '
  'whole history of the episode: a fresh history at the start of every '
  'episode (of every environment, in batches), none of it shared with '
  'evaluation, and updates over recorded sub-sequences regress every step to '
  'the target of its own history, ending at terminal steps only.',
  ['histories', 'inputs', 'configurations'],
  'all network functions, rewards and discounts within the bounds; seven '
  'Q-learning agents and DDPG',
  'tests run recurrent agents on one toy task',
  [('update_from_episodes', AG + 'dqn.py'), ('act_and_train', AG + 'dqn.py'),
   ('batch_act_and_train', AG + 'dqn.py'), ('batch_observe', AG + 'dqn.py'),
   ('_compute_target_values', AG + 'double_dqn.py'),
   ('_compute_target_values', AG + 'sarsa.py'),
   ('_compute_y_and_t', AG + 'al.py'), ('_compute_y_and_t', AG + 'pal.py'),
   ('_compute_y_and_t', AG + 'dpp.py'),
   ('update_from_episodes', AG + 'ddpg.py'),
   ('batch_recurrent_experiences', 'chainerrl/replay_buffer.py')])

# -- outside the reach of this technique

NA('N01', 'Computation on a GPU gives the results of the CPU',
   'Agents, buffers and batching give the same results with gpu set as '
   'without it.', ['inputs'], 'all inputs', 'no GPU in the test environment',
   [('gpu arguments', AG + 'dqn.py')],
   'the code that runs is CUDA kernels behind cupy, which is not installed '
   'here: there is nothing to execute symbolically')
NA('N02', 'Worker processes share memory without tearing or deadlock',
   'Asynchronous training with real operating system processes neither '
   'deadlocks nor loses evaluations, and reads of shared arrays see whole '
   'values.', ['schedules'], 'all interleavings of the processes',
   'tests run a few schedules',
   [('run_async', 'chainerrl/misc/async_.py'),
    ('train_agent_async', 'chainerrl/experiments/train_agent_async.py')],
   'the interleavings are of machine instructions in numpy kernels, libc and '
   'the kernel\'s fork/pipe code; the Python-level protocols are decided '
   'under C09 (vector environments), C12/C14 (training and evaluation '
   'counters) and C30 (aliasing of shared arrays) with processes '
   'represented by threads of one symbolic scheduler')
NA('N03', 'Agents learn to solve their tasks',
   'Trained with reasonable settings, every agent reaches a good return on '
   'simple environments.', ['inputs'], 'all seeds and environments',
   'a statistical statement about long runs',
   [('agents', AG + 'dqn.py')],
   'not a property of bounded executions: the update rules are decided '
   'instead (C25-C35), what thousands of them lead to is not within a '
   'solver\'s reach')
NA('N04', 'Samples follow the probabilities they are drawn with',
   'Exploration, prioritized sampling and stochastic policies draw outcomes '
   'with the stated probabilities.', ['inputs'], 'all parameters',
   'tests sample a few thousand times',
   [('Distribution.sample', 'chainerrl/distribution.py'),
    ('prioritized sampling', 'chainerrl/misc/prioritized.py')],
   'frequencies are facts about NumPy\'s generators; the technique treats a '
   'draw as an arbitrary value of its range. How a draw decides the outcome '
   '(the sum tree\'s intervals, epsilon against a uniform draw, noise scaled '
   'by the deviation) is decided under C05, C06, C24 and C39')
NA('N05', 'Frame warping yields the standard 84x84 grayscale observations',
   'WarpFrame resizes and converts frames as the DQN papers do.',
   ['inputs'], 'all frames', 'needs OpenCV',
   [('WarpFrame', 'chainerrl/wrappers/atari_wrappers.py')],
   'the computation is OpenCV\'s compiled cvtColor/resize, for which no '
   'source is present here to encode')
NA('N06', 'Pretrained models are downloaded completely and cached',
   'download_model returns the file for the model asked for, complete, and '
   'uses the cache the second time.', ['crash points'],
   'all failures of the connection', 'needs the network',
   [('download_model', 'chainerrl/misc/pretrained_models.py')],
   'the behaviour is that of urllib, zip files and a web server, outside the '
   'code; no network here to confirm a counterexample against')
