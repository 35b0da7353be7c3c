"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""
I, H, S, C, F = "inputs", "histories", "schedules", "configurations", "fault_sequences"
P: list[dict] = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state or [], observe=observe or []))


D = "tianshou/data/"
prop("B01", "Selecting from and assigning to a batch acts on every leaf like numpy",
     "For every nested batch and every supported index (integer, negative, slice, integer array, boolean mask, key), selection returns each leaf indexed exactly as the underlying array would be, assignment writes exactly the selected rows of every leaf and nothing else, and leaves missing from an assigned value are reset to zero. Iteration, length, shape and splitting into mini-batches agree with this: every split yields each row exactly once, with the requested sizes, shuffled or in order, and a merged last chunk when asked for.",
     [I, H], "all nested key structures, leaf dtypes/shapes (arrays, tensors, objects, distributions), index kinds and sequences of assignments",
     "The tests index a few fixed two-level batches; the guarantee ranges over all structures, index kinds and assignment histories.",
     [D + "batch.py"], [("__getitem__/__setitem__/split", D + "batch.py")],
     "trace monitor: leaf-wise numpy reference model over generated batches", "Random nested structures and index histories, each leaf compared with numpy/torch; sampled, not exhaustive.")
prop("B02", "Concatenating, stacking and padding batches aligns every leaf",
     "Concatenating or stacking any list of batches gives, for every leaf, the concatenation or stack of the inputs in order, with rows zero-filled where an input lacks the leaf; inputs are never modified. Building a batch from nested dictionaries, lists of dictionaries or keyword arguments gives the same tree as stacking its parts, and taking a result apart again recovers the inputs.",
     [I], "all lists of batches with equal or differing key sets, nested keys, mixed arrays/tensors and lengths",
     "Key mismatches interact with nesting, dtypes and order; tests cover a handful of hand-written combinations.",
     [D + "batch.py"], [("cat/stack", D + "batch.py")],
     "trace monitor: leaf-wise numpy reference model over generated batch lists", "Sampled lists of up to five batches; dtype promotion is only compared by value.")
prop("B03", "Batch copies, conversions, equality and arithmetic are leaf-exact",
     "Copying, pickling and converting a batch between arrays and tensors preserve every leaf's value and the tree structure without touching the original; converted batches convert back to the original. Two batches compare equal exactly when their structures and leaf values are equal. Adding, subtracting, scaling or detecting nulls acts leaf by leaf matching leaves by key, whatever the order in which keys were inserted.",
     [I], "all nested structures, dtypes, key insertion orders and operands",
     "Tests check a few literal batches; insertion order, nesting and dtype combinations are unbounded.",
     [D + "batch.py", D + "utils/converter.py"], [("to_torch/to_numpy/__add__/__eq__", D + "batch.py")],
     "trace monitor: leaf-wise reference semantics over generated batches", "The dtype argument of tensor conversion is only required for leaves that already are tensors (the project's tests pin that).")
prop("R01", "Replay storage is a bounded first-in-first-out record of what was added",
     "After any sequence of adds, resets and reads, a buffer of capacity N holds exactly the most recent N transitions added since the last reset (per sub-buffer for vector buffers), each with all its fields unaltered and readable at the index reported when it was added. Each add reports that index, the index where the episode started, and, only when the episode ends, its total reward and length. Neither the caller's arrays nor data read out share state with the stored transitions.",
     [H, I], "all add/reset/read histories, capacities, sub-buffer subsets, transition layouts and episodes longer than the capacity",
     "Wrap-around, resets, growing keys and partial sub-buffer adds combine; tests run a few scripted histories.",
     [D + "buffer/base.py", D + "buffer/manager.py", D + "buffer/vecbuf.py"], [("add / _update_state_pre_add", D + "buffer/base.py"), ("ReplayBufferManager.add", D + "buffer/manager.py")],
     "online trace checker: ring-buffer reference model with uniquely tagged transitions", "Sampled histories (up to ~60 operations, capacities up to 14 per sub-buffer).",
     [{"name": "insertion index and size", "meaning": "next slot and number of valid slots", "where": D + "buffer/base.py"}])
prop("R02", "Episode navigation never leaves the episode or the stored data",
     "For every stored transition, its predecessor and successor are the transitions added directly before and after it in the same sub-buffer if they belong to the same episode and are still stored, and otherwise the transition itself. The unfinished transitions reported are exactly the newest of each sub-buffer whose episode has not ended, and the index range from an episode's reported start to its end lists exactly its transitions in order, across the wrap-around edge too, while ranges spanning two sub-buffers are rejected.",
     [H, C], "all histories and ring positions, episodes of any length, any mix of sub-buffer sizes",
     "Correctness depends on the joint position of write pointer, wrap edge and episode ends; tests fix a few.",
     [D + "buffer/base.py", D + "buffer/manager.py"], [("prev/next/unfinished_index/get_buffer_indices", D + "buffer/base.py"), ("_prev_index/_next_index", D + "buffer/manager.py")],
     "online trace checker: recorded addition order as the oracle for navigation", "Sampled histories; numba bounds checking on for the compiled kernels.")
prop("R03", "Vector buffers equal independent buffers; cached buffers move episodes once",
     "A vector buffer behaves as if every sub-buffer were a separate buffer fed with its own stream: indices, statistics, contents, navigation and unfinished sets agree, and adding to some sub-buffers never changes another. A cached buffer moves every finished episode exactly once, contiguous and in order of completion, from its stream's cache into the main part, reports its new indices, and empties that cache.",
     [H, S], "all interleavings of per-stream episodes, stream subsets and orders per add, unequal sizes, caches shorter than an episode",
     "Interleaving of episode ends across streams is unbounded; tests use two or three fixed patterns.",
     [D + "buffer/manager.py", D + "buffer/vecbuf.py", D + "buffer/cached.py"], [("ReplayBufferManager.add", D + "buffer/manager.py"), ("CachedReplayBuffer.add", D + "buffer/cached.py")],
     "differential trace monitor: independently constructed single buffers / ring model; exactly-once counting of unique ids", "Sampled interleavings, up to 5 streams.")
prop("R04", "Sampling returns only valid stored transitions, uniformly, with their own data",
     "Sampling n > 0 returns exactly n indices of currently stored transitions together with exactly their data, each stored transition being equally likely; sampling 0 returns every stored transition in chronological order per sub-buffer, and a negative size nothing. With frame stacking restricted to available indices, only transitions that have a full stack of predecessors in their own episode are returned.",
     [H, I], "all histories (including after resets) and request sizes, on every buffer class",
     "Tests sample once after a scripted fill; validity after wrap, reset or uneven sub-buffers is not exercised.",
     [D + "buffer/base.py", D + "buffer/manager.py", D + "buffer/prio.py"], [("sample_indices", D + "buffer/base.py"), ("sample_indices", D + "buffer/manager.py")],
     "online trace checker against the reference contents, plus conservative frequency tests", "Uniformity is a statistical test (z bound 7.5), so only gross bias is detected.")
prop("R05", "Stacked and derived observations come from the transition's own episode",
     "With frame stacking, each observation read is the sequence of the last k frames of its own episode ending at that transition, the episode's first stored frame being repeated when fewer exist. When next observations are not stored they are derived as the observation of the following transition (or the transition's own at the end of the stored episode), and when only the last frame is stored that frame is what is stacked; actions, rewards and flags are never stacked unless requested.",
     [H, C], "all histories, stack sizes, storage options, nested observations and ring positions",
     "Stacks must be right at every ring position and episode boundary; tests check a few.",
     [D + "buffer/base.py", D + "buffer/manager.py"], [("get/__getitem__", D + "buffer/base.py")],
     "online trace checker: frames looked up by walking the recorded episode", "Sampled histories, stack sizes 1-5.")
prop("R06", "Saving, loading, copying and importing experience loses nothing",
     "A buffer restored from pickle, deep copy or an HDF5 file is equivalent to the original - contents, order, navigation, unfinished episodes, sampling - and continues identically under further use without affecting the original. A buffer built from arrays, one updated from another buffer, and one purged of incomplete transitions hold exactly those transitions, in order. Any nested data of arrays, tensors, numbers and other objects written to an HDF5 group is read back with the same kinds, dtypes and values.",
     [H, C], "all buffer classes and histories at the moment of saving, storage formats, and continuations afterwards",
     "Tests compare contents right after loading; divergence shows up only in continued use or unusual states.",
     [D + "buffer/base.py", D + "buffer/manager.py", D + "buffer/cached.py", D + "utils/converter.py"], [("save_hdf5/load_hdf5/from_data/update", D + "buffer/base.py"), ("to_hdf5/from_hdf5", D + "utils/converter.py")],
     "differential trace monitor: restored copy versus reference model under continued histories", "Known finding: dropping incomplete transitions from a partly filled buffer.")
prop("R07", "Prioritized replay samples and weights by the current priorities",
     "At every point each stored transition's priority is the absolute value last assigned to it (raised to alpha), new transitions (added or taken over from another buffer) having the highest priority assigned so far; transitions are drawn with probability proportional to priority, and importance weights are proportional to priority to the power of minus the current beta, scaled to a maximum of one when normalisation is on. The underlying sum tree returns exact values, range sums and prefix-sum positions after any sequence of updates, including repeated indices.",
     [H, I], "all update/add/sample/reset/beta histories on single and vector prioritized buffers, all tree sizes and queries",
     "Tests sample statistically after one fill and query small trees; drift between tree and data needs long mixed histories.",
     [D + "buffer/prio.py", D + "buffer/vecbuf.py", D + "utils/segtree.py"], [("update_weight/get_weight", D + "buffer/prio.py"), ("SegmentTree", D + "utils/segtree.py")],
     "online trace checker: explicit priority table and array model of the tree", "Tree values are dyadic so equality is exact; sampling distribution is tested statistically.")
prop("R08", "Hindsight relabelling is confined to real futures and is undone",
     "Every transition sampled from a hindsight buffer is either exactly as stored or carries, in both its observations, a goal achieved at the same or a later step of the same stored episode together with the reward recomputed for that goal; all sampled transitions of one episode are treated alike and the share of relabelled episodes follows the configured ratio. Nothing else is changed, and the originals are back before anything is next written, saved or sampled.",
     [H, C], "all goal-based histories including wrap-around and partial episodes, ratios, stored or derived next observations, single and vector buffers",
     "Tests check shapes and one deterministic goal; which episode and step a goal came from is not observed.",
     [D + "buffer/her.py", D + "buffer/manager.py"], [("rewrite_transitions/_restore_cache", D + "buffer/her.py")],
     "online trace checker: goal-coded episodes identify the origin of every relabelled goal", "The horizon is at least the longest episode (documented precondition).")
L = "tianshou/policy/"
prop("P01", "n-step targets follow each transition's own episode",
     "For any stored history and any sampled transitions, the n-step target equals the discounted sum of the rewards actually following each transition, stopping after n steps, at the end of its episode, or at the newest stored transition, plus the discounted value supplied for the last transition reached, which is dropped exactly when that transition is a true termination (truncation and unfinished episodes bootstrap). Neither rewards nor end flags of other episodes ever contribute, and the stored data is unchanged.",
     [H, I], "all histories, ring positions, buffer classes, n, discount factors and value functions",
     "Tests compare a few hand-written buffers; where episodes wrap, end or are cut relative to the horizon is unbounded.",
     [L + "base.py", D + "buffer/base.py"], [("compute_nstep_return/_nstep_return/value_mask", L + "base.py")],
     "online trace checker: explicit walk along each recorded episode with a unique value per stored transition", "Sampled histories; values compared to 1e-4 (float32 targets).")
prop("P02", "Advantages and returns are computed per episode from stored data",
     "For all stored data, generalised advantages equal the (discount x lambda)-weighted sums of one-step errors within the transition's own stored episode, returns equal advantage plus value, and with lambda 1 and no values they are the discounted Monte-Carlo return. A true termination contributes no value beyond it, a truncated or still unfinished episode bootstraps from the value of its last next observation, and nothing leaks between episodes or sub-buffers.",
     [H, I], "all histories and episode endings on every buffer class, discount and lambda values, values supplied or derived",
     "Leaks across boundaries only show for particular joint positions of episode ends; tests use four fixed sequences.",
     [L + "base.py"], [("compute_episodic_return/_gae_return", L + "base.py")],
     "online trace checker: explicit double sums per recorded episode", "Sampled histories; values compared to 1e-6.")
prop("C01", "Every environment step taken by a collector is recorded exactly once",
     "Whatever sequence of step-wise, episode-wise and random collects and resets is made, each step an environment executes appears in the buffer exactly once, in order within its environment's own sub-buffer, with the observation it was chosen from, the action the policy produced (the environment receiving its mapped form, with exploration noise if enabled), the reward, end flags, info and policy outputs of that very step, and the observation it led to. An environment is reset exactly when its episode ends or a reset is requested, with the arguments given for that reset, and never stepped beyond its end. A collect leaving NaN in the buffer raises, unless this check is switched off.",
     [H, C, S], "all collect/reset histories, environment counts and episode lengths, observation/action layouts, buffers, policies and worker kinds",
     "Ready sets, resets and buffer indices interact across collects; tests check counts on a few fixed sequences, not which data landed where.",
     [D + "collector.py"], [("Collector._collect", D + "collector.py")],
     "exactly-once checker over the environments' own event logs", "Capacity must exceed the episode length (documented); the initial random box case with an unscaled tanh bound is excluded as ill-defined.")
prop("C02", "Collection amounts and statistics equal what actually happened",
     "Collecting n steps takes the least number of rounds over all environments reaching n, and collecting n episodes reports n complete episodes without favouring short ones. The reported steps, episodes, returns, lengths, their summaries, per-action deviations, times and the collector's running totals equal those of the environment steps taken, including episodes begun in earlier collects. The policy acts in evaluation mode and has its previous mode back afterwards, even on failure.",
     [H, C], "all collect histories, environment counts and episode plans; resets of statistics, buffers and environments between collects",
     "Accounting across collects depends on leftovers of earlier ones; tests sample a few fixed episode lengths.",
     [D + "collector.py", D + "stats.py"], [("CollectStats", D + "collector.py"), ("SequenceSummaryStats", D + "stats.py")],
     "conservation checker: statistics recomputed from environment logs", "Known findings: resetting environments mid-episode joins it to the next one in the buffer.")
prop("C03", "Asynchronous collection pairs every result with its own action",
     "With an asynchronous collector, whatever order and subsets environments finish in, every step handed back is recorded exactly once with the observation, action, policy output and state that caused it, in its own environment's sub-buffer; statistics match, nothing is lost or duplicated while steps are in flight between collects, no environment is left without an action, and a reset discards exactly the unfinished ones.",
     [S, H], "all completion orders, waiting thresholds, worker delays and collect/reset histories",
     "Completion order is chosen by the scheduler; tests see whichever order happened and check only counts.",
     [D + "collector.py", "tianshou/env/venvs.py"], [("AsyncCollector._collect", D + "collector.py"), ("BaseVectorEnv.step (async)", "tianshou/env/venvs.py")],
     "schedule-controlled exactly-once checker over environment logs", "Completion schedules are sampled by a scripted worker, plus real processes with delays.",
     [{"name": "in-flight set", "meaning": "environments whose step has not been handed back", "where": "tianshou/env/venvs.py"}])
prop("C04", "Recurrent state follows its environment and never outlives its episode",
     "During collection the policy is always handed, for each environment, exactly the hidden state it returned for that environment's previous step of the same episode, and an all-zero (or absent) state at the first step of every episode, whatever container the state uses and however collects are sequenced; the state stored with a transition is the one its step produced.",
     [H, C], "all collect histories, subsets of active environments, episode ends and state containers",
     "Misrouted or stale states do not change shapes; tests with recurrent policies check only that training runs.",
     [D + "collector.py"], [("_reset_hidden_state_based_on_type", D + "collector.py")],
     "online checker: step-counting hidden states compared with environment logs", "Sampled histories with stub recurrent policies.")
prop("C05", "Collection hooks see each step and episode once; additions land on its data",
     "A step hook is called once per vector step, before storage, with exactly the rows stepped, and what it adds or changes is what is stored for those rows; an episode hook is called once per finished episode with exactly its transitions in order, and what it returns is stored on exactly those. Merged hooks combine their additions and reject overlapping keys on request, recorded distributions are those of each row's own step, Monte-Carlo return hooks store the discounted returns, and additions to unfinished episodes are reported as an error. Rendering on request shows every vector step once.",
     [H, C], "all collect histories, hook combinations, buffers and episode layouts",
     "Rows and indices given to hooks depend on ready sets and ring positions; tests use one or two environments.",
     [D + "collector.py", D + "buffer/manager.py"], [("run_on_step_hook/run_on_episode_done", D + "collector.py"), ("EpisodeRolloutHookMerged", D + "collector.py")],
     "online checker: recording hooks compared with environment logs and the buffer", "Sampled histories with stub policies.")
V = "tianshou/env/"
prop("E01", "Every vector-environment backend behaves like its environments driven directly",
     "For every backend, any sequence of resets, steps, seeds, attribute accesses and render calls on all or some environments, given in any order and form of ids, has exactly the effect of making those calls on each environment directly: each receives its own action and reset arguments once, and observations, rewards, end flags, infos (plus the environment id) and attributes come back in the order of the ids. Results already returned never change through later calls, and the caller's actions are not modified.",
     [H, C], "all call histories, id subsets and orders, observation/action spaces and reward layouts on the sequential, process, shared-memory and Ray backends",
     "Tests run one toy environment in a fixed order; misrouting depends on id order, space layout and what is kept across calls.",
     [V + "venvs.py", V + "worker/dummy.py", V + "worker/subproc.py", V + "worker/ray.py", V + "venv_wrappers.py"], [("BaseVectorEnv.step/reset", V + "venvs.py"), ("_worker/_encode_obs/_decode_obs", V + "worker/subproc.py")],
     "differential trace monitor: twin environments driven directly, held results re-checked", "Ray and spawned processes get few cases because of start-up cost.")
prop("E02", "Asynchronous stepping yields each action's own result exactly once",
     "In asynchronous mode every action sent to an idle environment yields exactly one result, that of its own step, tagged with its environment id, whatever order environments finish in; each call returns at least the required number of results (all in flight if fewer) unless a timeout is set, and then at least one. Idle and busy sets always partition the environments, and calls on busy ones are refused without effect.",
     [S, H, C], "all completion orders, waiting numbers, timeouts, subsets sent, and interleaved resets, fetches and illegal calls",
     "Completion order is up to the scheduler; tests rely on sleeps and check ids of one fixed pattern.",
     [V + "venvs.py", V + "worker/subproc.py", V + "worker/dummy.py", V + "worker/ray.py"], [("BaseVectorEnv.step/_assert_id", V + "venvs.py"), ("wait", V + "worker/subproc.py")],
     "schedule-controlled online protocol checker with twin environments", "Schedules are sampled via a scripted worker; real processes use random delays.",
     [{"name": "ready/waiting ids", "meaning": "idle and in-flight environments", "where": V + "venvs.py"}])
prop("E03", "Vector environments are released completely and failures surface",
     "Closing a vector environment, also with steps in flight, large results pending, through a collector, or after a failure, closes every environment it created exactly once and ends every worker process; afterwards every use is refused. An environment that raises, or a worker process that dies, makes the call fail promptly instead of hanging or returning data, and the rest can still be closed.",
     [F, H], "all moments of closing or failing, backends, delays and result sizes",
     "Leaks and hangs need a fault or close at a particular moment; tests close idle environments only.",
     [V + "venvs.py", V + "worker/base.py", V + "worker/subproc.py"], [("close", V + "venvs.py"), ("close_env/_worker", V + "worker/subproc.py")],
     "fault injection with a file-logged construction/close ledger and process monitor", "An environment inside a dead worker cannot be closed and is exempt.")
prop("U01", "Running statistics and observation normalisation match the data seen",
     "Running mean, variance and count equal those of all data received so far whatever its batching; normalised values are the data shifted and scaled by them and clipped. A moving average equals the mean of the last finite values, ignoring every NaN and infinity. A normalising vector environment updates its statistics with exactly the observations returned by resets and steps, unless frozen, returns the normalised observations, and passes everything else through.",
     [I, H], "all data streams, batch sizes, shapes, offsets and environment call histories",
     "Tests feed a few numbers; batching, non-finite values and subset resets are unbounded.",
     ["tianshou/utils/statistics.py", V + "venv_wrappers.py", D + "stats.py"], [("RunningMeanStd/MovAvg", "tianshou/utils/statistics.py"), ("VectorEnvNormObs", V + "venv_wrappers.py")],
     "online checker: statistics recomputed from recorded raw data", "Values compared to 1e-4 .. 1e-9 depending on dtype.")
prop("E04", "Seeding a vector environment makes every environment's randomness reproducible",
     "Seeding a vector environment with one number, or a list, seeds every environment and its action space with its own seed (consecutive ones for a number) and a seeded reset seeds those it resets, so that observations, rewards and random actions afterwards are exactly those of environments seeded directly, on every backend, whatever subsets are then reset or stepped and through any wrapper.",
     [H, C], "all seeding forms and histories, id subsets, action spaces and the sequential, process and shared-memory backends",
     "Tests seed one environment once; equality has to hold after any history and between backends.",
     [V + "venvs.py", V + "worker/dummy.py", V + "worker/subproc.py", V + "worker/ray.py"], [("BaseVectorEnv.seed", V + "venvs.py"), ("DummyEnvWorker.send/seed", V + "worker/dummy.py")],
     "differential trace monitor: stochastic twin environments seeded directly", "Observed on scripted stochastic environments using gymnasium's own generators.")
prop("E05", "Action and termination wrappers translate exactly",
     "A discretised box action reaches the environment as the grid point of its index in every dimension, from the lowest to the highest bound; a flattened multi-discrete action reaches it as the unique combination with that number, every combination being reachable exactly once; a truncation is reported as a termination as well and nothing else about a step or reset changes. This holds for single actions and batches, alone and inside vector environments.",
     [I, C], "all box bounds, numbers of actions, discrete dimensions, single and batched actions and flag sequences",
     "Tests convert a few actions of one space each; bijectivity and grid placement range over all spaces.",
     [V + "gym_wrappers.py"], [("ContinuousToDiscrete/MultiDiscreteToDiscrete/TruncatedAsTerminated", V + "gym_wrappers.py")],
     "online checker: recording inner environment compared with the grid, numbering and flag rules", "Spaces are sampled; each sampled discrete space is covered completely.")
prop("E06", "The PettingZoo adapter presents every turn and all agents' rewards faithfully",
     "At every reset and step of a turn-based multi-agent environment the adapter reports the agent whose turn it is, that agent's observation, action mask (all true if the environment has none), end flags and info, and the last-step reward of every possible agent in a fixed order, zero for agents that have left. Results already returned are never altered by later steps, alone or inside vector environments.",
     [H, C], "all turn orders, masks, per-step rewards, departures, agent counts and episode sequences",
     "Tests play tic-tac-toe, in which rewards are zero until both agents end together; departures and per-step rewards never occur.",
     [V + "pettingzoo_env.py"], [("PettingZooEnv.step/reset", V + "pettingzoo_env.py")],
     "differential trace monitor: twin environments driven through PettingZoo's own interface", "Observed on scripted environments.")
prop("P05", "Value-based updates move the network along the documented loss and nothing else",
     "One update of DQN, Branching DQN, C51, Rainbow, QR-DQN, IQN or FQF on any sampled experience changes each trained network exactly by one optimiser step on that algorithm's published loss: targets combine the (n-step) discounted rewards with the documented bootstrap (target network, double or plain maximisation over allowed actions only, distributional projection onto the atoms, Huber quantile regression), not beyond terminations but beyond truncations and unfinished steps, rows weighted by their importance weights. Target networks are copied from the online network at exactly the configured interval and otherwise untouched, the reported loss is that loss, and priorities written back are the rows' own errors.",
     [I, H, C], "all stored histories, option combinations, discounts, n-step lengths, action masks, importance weights and update sequences",
     "Training tests only reach a reward threshold; a wrong target, weight or interval still learns the toy task.",
     [L + "modelfree/dqn.py", L + "modelfree/bdq.py", L + "modelfree/c51.py", L + "modelfree/rainbow.py", L + "modelfree/qrdqn.py", L + "modelfree/iqn.py", L + "modelfree/fqf.py", L + "base.py"],
     [("learn/_target_q", L + "modelfree/dqn.py"), ("compute_nstep_return", L + "base.py")],
     "differential runtime monitor: every parameter, loss and priority after each real update compared with an independent computation of the update from the recorded experience", "Small stub networks with plain SGD; float tolerance 3e-4; random quantile fractions are read from the networks' inputs.",
     [{"name": "online and target parameters", "meaning": "networks before and after each update", "where": L + "modelfree/dqn.py"}])
prop("P09", "Actor-critic updates move actors, critics, temperature and targets as documented",
     "One update of DDPG, TD3, SAC, REDQ or discrete SAC on any sampled experience changes critics, actor and temperature exactly by one optimiser step each on that algorithm's published losses: bootstrap from the target networks (with clipped smoothing noise, minimum over the target critics or a random subset of the ensemble, entropy bonus), importance-weighted critic errors, the actor updated only in the configured updates, temperature towards the entropy target. Target networks follow as tau-weighted averages at the same moments and never receive gradients; reported losses and priorities are those of the update.",
     [I, H, C], "all stored histories, option combinations, discounts, n-step lengths, tau, delays, temperatures and update sequences",
     "Training tests only reach a reward threshold; swapped critics, wrong delays or a detached temperature still learn the toy task.",
     [L + "modelfree/ddpg.py", L + "modelfree/td3.py", L + "modelfree/sac.py", L + "modelfree/redq.py", L + "modelfree/discrete_sac.py", L + "base.py"],
     [("learn/_target_q", L + "modelfree/sac.py"), ("soft_update", L + "base.py")],
     "differential runtime monitor: parameters, losses, temperature and priorities after each real update compared with an independent computation; sampling noise pinned or observed at the critics", "Small stub networks with plain SGD; float tolerance 3e-4; smoothing noise checked for bounds and scale only statistically.",
     [{"name": "target networks", "meaning": "slowly following copies", "where": L + "base.py"}])
prop("P10", "On-policy updates use every row once per pass and follow the documented loss",
     "One update of PG, A2C, PPO, NPG or TRPO computes returns and advantages of every stored row from its own episode (bootstrapping only where not terminated, normalised as configured), then in every pass splits the rows, in random order, into mini-batches covering each exactly once and moves actor and critic exactly by the published step: policy gradient, clipped ratio against the collecting policy (dual and value clipping, recomputed advantages), gradient-norm clipping, natural gradient, or a line search within the divergence bound that leaves the actor unchanged when it fails. Reported losses, divergences and step sizes summarise exactly these steps.",
     [I, H, C], "all stored histories incl. unfinished episodes, option combinations, batch sizes, repeats and update sequences",
     "Training tests only reach a reward threshold; dropped rows, stale advantages or a violated divergence bound still learn the toy task.",
     [L + "modelfree/pg.py", L + "modelfree/a2c.py", L + "modelfree/ppo.py", L + "modelfree/npg.py", L + "modelfree/trpo.py", L + "base.py"],
     [("learn", L + "modelfree/ppo.py"), ("learn", L + "modelfree/trpo.py"), ("compute_episodic_return", L + "base.py")],
     "differential runtime monitor: mini-batches read from the actor's inputs, parameters and every statistic compared with an independent computation", "Small stub networks with plain SGD; cases in which rounding is amplified beyond the tolerance (measured by perturbing the advantages) are skipped and counted.",
     [{"name": "actor and critic parameters", "meaning": "networks before and after each mini-batch step", "where": L + "modelfree/ppo.py"}])
prop("P11", "Imitation and offline updates follow the documented losses on the stored data",
     "One update of behaviour cloning, discrete BCQ, discrete CQL, discrete CRR, BCQ, CQL, TD3+BC or GAIL on any stored experience changes every network exactly by one optimiser step each on that algorithm's published loss: targets bootstrap except at terminations, with actions limited to likely ones, perturbed by the target perturbation of generated ones or drawn from the policy; conservative terms range over all sampled actions, random ones uniform within the given bounds, calibrated by each transition's own return; advantage weights apply row by row; the discriminator sees every collected row once beside expert rows and provides the rewards. Targets follow as configured and all reported losses are those of the update.",
     [I, H, C], "all stored histories incl. wrapped and partly filled buffers, option combinations and update sequences",
     "Training tests only require some reward after a few hundred updates; wrong targets, ranges or row pairings pass them (ten such defects did).",
     [L + "imitation/base.py", L + "imitation/discrete_bcq.py", L + "imitation/discrete_cql.py", L + "imitation/discrete_crr.py", L + "imitation/bcq.py", L + "imitation/cql.py", L + "imitation/td3_bc.py", L + "imitation/gail.py"],
     [("learn", L + "imitation/cql.py"), ("learn", L + "imitation/bcq.py"), ("learn/process_fn", L + "imitation/gail.py")],
     "differential runtime monitor: parameters, losses and temperatures after each real update compared with an independent computation; sampled actions pinned or read from the critics' inputs", "Small stub networks (VAE and discriminator included) with plain SGD; uniformity of random actions only statistically.",
     [{"name": "networks and targets", "meaning": "parameters before and after each update", "where": L + "imitation/cql.py"}])
prop("P03", "Every update follows the same protocol and touches nothing else",
     "For every policy, an update is refused without any effect outside a training step; inside one it samples, processes, learns and post-processes in this order exactly once on the same rows, advances the learning-rate schedule once, evaluates trained networks in training mode while learning and target networks in evaluation mode, restores the mode it found, and leaves the stored experience unchanged (priorities aside). The same experience, parameters and random numbers give the same update; copies never influence each other, and saved parameters restore the policy's behaviour.",
     [I, H, C], "all policies, options, modes, buffers with random experience, and update sequences",
     "Each rule must hold for every algorithm in every mode; tests run one training configuration per algorithm and look at the final reward.",
     [L + "base.py", L + "modelfree", L + "imitation", L + "modelbased/icm.py"],
     [("BasePolicy.update/process_fn/post_process_fn", L + "base.py"), ("policy_within_training_step", L + "base.py")],
     "trace monitor: hooks on every network evaluation and update step, buffer and parameter snapshots, lock-step twins", "All 36 policy configurations; Rainbow's noisy target network is intentionally in training mode.",
     [{"name": "training mode and updating flags", "meaning": "mode of each network while it is evaluated", "where": L + "base.py"}])
prop("P04", "Computing actions is side-effect free, row-wise, legal, deterministic when asked",
     "For every policy, computing actions changes no parameter, gradient, optimiser state, mode or input; in evaluation mode every network used is in evaluation mode, and a row's output does not depend on the other rows. Actions follow the reported distribution, are its most probable value when deterministic evaluation is on and no training step is in progress, are drawn independently otherwise, and never fall on masked-out or non-existent actions.",
     [I, C], "all policies, options, modes, batch compositions, masks and observations",
     "Tests call forward on one batch and check shapes; independence of rows, modes and side effects range over all inputs.",
     [L + "base.py", L + "modelfree", L + "imitation", "tianshou/utils/net"],
     [("forward", L + "modelfree/dqn.py"), ("forward", L + "modelfree/pg.py"), ("is_within_training_step", L + "base.py")],
     "trace monitor: snapshots and hooks around every forward pass, row-wise replays, distribution tests of drawn actions", "Distribution tests use 6.5-sigma bounds; quantile draws of IQN and the latent draws of BCQ are not compared row by row.",
     [{"name": "training step flag", "meaning": "whether deterministic evaluation applies", "where": L + "base.py"}])
prop("P06", "Network outputs become legal environment actions and back",
     "With bounding and scaling as configured, every raw action maps into the environment's bounds, affinely after clipping or squashing to [-1, 1], and the inverse recovers the raw action of any environment action strictly inside the bounds; discrete actions pass unchanged, inputs are never modified, and unbounded raw values outside [-1, 1] are rejected when scaling without bounding. The environment receives the mapped action while the buffer stores the raw one; a single observation yields the same action as a batch of one, in the action space's own form.",
     [I, C], "all action spaces, bounds, option combinations, raw values and observation shapes",
     "Tests map a few values of one symmetric space; asymmetric bounds, shapes and the inverse are not exercised.",
     [L + "base.py", D + "collector.py"], [("map_action/map_action_inverse/compute_action", L + "base.py"), ("RandomActionPolicy", L + "base.py")],
     "online checker: affine/squashing reference for every mapped action, recording environments behind collectors", "Float32 tolerances; degenerate boxes (equal bounds) are outside the claim.")
prop("P07", "Exploration draws from the documented distribution, only when asked for",
     "Epsilon-greedy exploration replaces each row's action independently with probability epsilon by a uniformly random allowed action and leaves the others (all at epsilon zero); Gaussian and Ornstein-Uhlenbeck noise added to continuous actions has the configured mean, scale, memory and restart, freshly drawn per element; random agents choose uniformly among allowed actions. Policies without exploration leave actions alone. Collectors apply exploration to each policy action exactly when asked to, never in random collection, before mapping, and store the explored action.",
     [I, H, C], "all epsilons and their changes, action masks, batch sizes, noise parameters, call histories and collector settings",
     "Randomness is never asserted by the tests; a shared coin, a biased or forbidden random action or noise applied at the wrong moment still trains.",
     ["tianshou/exploration/random.py", L + "modelfree/dqn.py", L + "modelfree/bdq.py", L + "modelfree/ddpg.py", L + "random.py", D + "collector.py"],
     [("exploration_noise", L + "modelfree/dqn.py"), ("OUNoise/GaussianNoise", "tianshou/exploration/random.py"), ("_compute_action_policy_hidden", D + "collector.py")],
     "statistical runtime monitor: frequencies, moments and correlations of observed draws against the documented distribution; call spies at collectors", "Bounds of 6.5 sigma, so small biases (below roughly 5 %) are not detected.")
prop("P08", "A multi-agent manager gives every agent exactly its own rows and rewards",
     "For any assignment of rows to agents, the multi-agent manager passes each agent's policy exactly its own rows in order, with its own column of the reward, mask and state, puts actions and exploration back at the right rows, calls no policy without rows, and passes on mode and training step. In an update each agent learns exactly as it would alone on a buffer holding its own rewards, losses are reported under its name, and the stored rewards are back afterwards. Collecting in turn-based environments records for each turn the acting agent's own action.",
     [I, H, C], "all row-to-agent assignments incl. absent agents, masks, reward vectors, states, policy combinations and buffers",
     "The tests train one tic-tac-toe agent against a random one; swapped rows or reward columns among learning agents are not noticed.",
     [L + "multiagent/mapolicy.py"], [("forward/process_fn/learn/exploration_noise", L + "multiagent/mapolicy.py")],
     "trace monitor with recording policies, and lock-step twins of real policies trained alone on their own rewards", "On-policy and value-based sub-policies; recurrent sub-policies behind collectors and off-policy actor-critics without action masks are not supported by the library and not claimed.")
prop("P12", "Posterior sampling and curiosity follow their models of the data",
     "The tabular posterior holds exactly the counts and mean rewards of all experience seen on top of the prior, whatever its batching, keeps the prior of pairs never observed and never alters the given priors; models are drawn from it, solved to the configured precision, and acted on greedily until new data arrive. Curiosity adds to each transition's reward the scaled prediction error of its own transition, the inner policy learns from that sum, and the curiosity model takes one optimiser step on the documented loss while stored rewards stay as they are.",
     [I, H], "all tabular experience histories, priors, discounts and batchings, and curiosity updates on all experience",
     "One training test (skipped offline) and one smoke test; posterior formulas, priors and the reward path are never checked.",
     [L + "modelbased/psrl.py", L + "modelbased/icm.py", "tianshou/utils/net/discrete.py"], [("PSRLModel.observe/value_iteration", L + "modelbased/psrl.py"), ("process_fn/learn", L + "modelbased/icm.py")],
     "differential runtime monitor: posterior, solved models and curiosity updates recomputed from the recorded experience", "Known finding: off-policy inner policies never see the intrinsic reward.")
T = "tianshou/trainer/"
prop("T01", "Trainers follow the configured schedule of collecting, updating, evaluating",
     "Every epoch of the three trainers runs training callbacks, collections of exactly the configured steps or episodes with exploration, and the configured number of updates per collected step (whole-buffer passes when on-policy, a fixed count when offline), in this order, until the configured steps are done, then one evaluation of the test collector over the configured episodes in evaluation mode without exploration. Step, episode, gradient-step and epoch counters equal what was done, across continued and reset runs, and contradictory configurations are refused before any work.",
     [C, H], "all trainer kinds, schedules, callbacks, stop points, continued, iterated and repeated runs",
     "Training tests only look at the final reward; a missed update, an extra collection or a wrong count at a remainder is not visible.",
     [T + "base.py", T + "utils.py"], [("BaseTrainer.__next__/train_step/training_step/policy_update_fn", T + "base.py"), ("test_episode", T + "utils.py")],
     "online trace monitor: all collections, updates, evaluations and callbacks recorded and parsed by a reference automaton", "Scripted environments and policies; the number of evaluations before the first epoch is not fixed (run() resets twice).")
prop("T02", "The best policy and the stop decision follow the evaluations",
     "The best score, reward and epoch reported are those of the highest evaluation so far (by the configured score), the best-policy callback is called exactly when it improves and while the policy still has the evaluated parameters. Training ends early exactly when the stop condition holds for the best evaluation, or, where testing during training is enabled, when it holds for finished training episodes and is confirmed by an evaluation; otherwise it lasts exactly the configured epochs, and later calls do no further work.",
     [C, H], "all evaluation outcomes, score functions, thresholds, stop points and trainer kinds",
     "Tests stop at their first success; ties, regressions after the best epoch, unconfirmed stops and custom scores do not occur in them.",
     [T + "base.py"], [("BaseTrainer.test_step/_test_in_train/__next__", T + "base.py")],
     "online trace monitor: a reference automaton decides from the observed returns when to save and stop", "Scripted environments whose returns cross the threshold by chance.")
prop("T03", "Loggers write each due value once and training resumes where it was saved",
     "Trainer and logger record every statistic of a collection, evaluation or update under its own name with the right step, exactly when the configured interval since the last record has passed, and never alter the data or the training. Checkpoints are saved at the configured intervals and with the current epoch, environment step and gradient step; what a tensorboard or W&B logger wrote can be read back, its options take effect, and a restarted trainer continues with the counters and epoch saved last. Smoothed statistics are the mean of the last finite values.",
     [C, H, F], "all intervals, call histories, nested statistics, restarts after completed and interrupted runs",
     "Tests never read a log back or resume one; off-by-one intervals, lost keys and wrong resume counters are invisible to them.",
     [T + "base.py", "tianshou/utils/logger/base.py", "tianshou/utils/logger/tensorboard.py", "tianshou/utils/logger/wandb.py", "tianshou/utils/statistics.py"],
     [("log_train_data/log_test_data/log_update_data/restore_logged_data", "tianshou/utils/logger/base.py"), ("save_data/restore_data", "tianshou/utils/logger/tensorboard.py"), ("BaseTrainer.reset", T + "base.py")],
     "online trace monitor of logger calls against the interval rule, and read-back of the event files after simulated restarts", "A crash between the three scalars of one checkpoint is tolerated; keys that are both value and namespace are skipped; the W&B service is replaced by a recorder (the package is not installed).")
prop("T04", "Training is a function of seeds and configuration alone",
     "Two runs of the same configuration from equal seeds give bit-identical parameters, targets, buffers, losses and returns for every algorithm; adding loggers, progress bars, verbosity or observing callbacks, iterating instead of running, running environments in worker processes instead of in place, or pickling policy, buffer or both between epochs changes nothing. Different seeds give different runs.",
     [C, H, S], "all algorithms, buffers, worker kinds, instrumentation and interruption points",
     "Hidden global random draws, state outside the objects and observers with side effects show only when two whole runs are compared bit for bit.",
     [T + "base.py", D + "collector.py", L + "base.py", "tianshou/env/venvs.py"],
     [("BaseTrainer.run", T + "base.py"), ("Collector", D + "collector.py"), ("worker seeding", "tianshou/env/worker/subproc.py")],
     "lock-step twin runs compared bit for bit", "Synchronous vector environments only; asynchronous ones depend on worker timing. Twin runs last a few epochs.")
U = "tianshou/utils/"
X = "tianshou/highlevel/"
prop("N01", "Ready-made networks compute what they document for every configuration",
     "For every combination of hidden sizes, activations, normalisation, dueling, atoms, concatenation and output options, the provided networks (multilayer perceptrons, nets, actors, critics, recurrent, quantile, branching, noisy and ensemble networks, perturbation and variational nets, curiosity modules) return exactly the documented function of their parameters and input, row by row, in the documented shape and range. Recurrent networks stepped one observation at a time with their returned state equal the whole sequence. Copies and reloaded state give the same outputs; impossible configurations are refused.",
     [I, C, H], "all network configurations, inputs, batch and sequence lengths, states and containers",
     "Tests build two or three sizes and look at output shapes; values, states, combined options and odd sizes are never recomputed.",
     [U + "net/common.py", U + "net/discrete.py", U + "net/continuous.py"], [("MLP/Net/Recurrent/BranchingNet", U + "net/common.py"), ("Actor/Critic/IQN/FQF/Noisy", U + "net/discrete.py"), ("ActorProb/Perturbation/VAE/RecurrentActorProb", U + "net/continuous.py")],
     "differential runtime monitor: outputs recomputed in float64 numpy from the network's own parameters", "Convolutional Atari nets live in examples and are out of scope; recurrent nets only with vector observations.")
prop("U02", "Schedules, optimiser helpers, mode switches and space descriptions are exact",
     "Several learning-rate schedules stepped together follow each schedule alone, and saved and reloaded they continue as if never interrupted. A cloned optimiser has the original's class and options on the new parameters and shares no state. A clipped optimiser step applies exactly the step on the gradients of the given loss, scaled to the norm limit. Temporary train and training-step switches restore the previous mode on every exit, normal or by an exception, nested or not. Descriptions of action and observation spaces match the spaces, and uniform action distributions cover exactly the space.",
     [I, H, F], "all optimisers and schedules, points of interruption, norms, nestings of mode switches, spaces",
     "Each helper is called once or not at all in the tests; resuming, nesting, exceptions and unusual spaces are not reached.",
     [U + "lr_scheduler.py", U + "optim.py", U + "torch_utils.py", U + "space_info.py", U + "conversion.py"], [("MultipleLRSchedulers", U + "lr_scheduler.py"), ("clone_optimizer/optim_step", U + "optim.py"), ("torch_train_mode/policy_within_training_step/create_uniform_action_dist", U + "torch_utils.py"), ("SpaceInfo", U + "space_info.py")],
     "lock-step twins: interrupted against uninterrupted schedules, cloned against fresh optimisers, mode state recorded around every switch", "Mode restoration is claimed for modules in one uniform mode; Discrete spaces with an offset are not claimed.")
prop("U03", "Statistics records summarise exactly what they were fed",
     "Collection statistics count every step and finished episode they are given, keep the returns, lengths and spreads of the predicted action distributions in order, and report mean, deviation, minimum and maximum of exactly these, brought up to date when asked and never otherwise; times and speeds follow the reported time, and negative times are refused. Training statistics report every set loss for logging and nothing else. Wrapping them to any depth loses nothing: values read and written through a wrapper are those of the wrapped record, unknown names are refused, and per-agent records join all losses under the agent's name. Copies are equal and separate.",
     [I, H], "all sequences of updates, refreshes and times, distributions, loss fields, wrapping depths and agent groups",
     "Statistics are only looked at in passing by the tests, after one run; sequences, stale summaries, wrappers and groups are not.",
     ["tianshou/data/collector.py", "tianshou/data/stats.py", "tianshou/policy/base.py", "tianshou/policy/multiagent/mapolicy.py"],
     [("CollectStats", "tianshou/data/collector.py"), ("SequenceSummaryStats", "tianshou/data/stats.py"), ("TrainingStats/TrainingStatsWrapper", "tianshou/policy/base.py"), ("MapTrainingStats", "tianshou/policy/multiagent/mapolicy.py")],
     "trace monitor: records replayed by a reference model fed with the same calls", "A wrapper that redefines a name of the record it wraps is not claimed.")
prop("H01", "Every option of a configured experiment reaches the object it names",
     "Whatever options are given to an experiment builder, the created policy has exactly the given parameters (scaled or created by their factories as documented), networks with the given layers and activations and sharing only what is asked for, optimisers and schedules with the given options over exactly the right parameters, and reads the networks' outputs as what they were built to produce. Environments, seeds, collectors, buffers and trainer follow the sampling configuration; defaults apply where nothing is given, given objects stay unchanged, and contradictory settings are refused.",
     [C], "all builders and combinations of options for parameters, networks, optimisers, schedules, sampling and environments",
     "Tests build each experiment once with defaults; an option that is dropped or lands at the wrong place still trains.",
     [X + "experiment.py", X + "agent.py", X + "module", X + "params", X + "optim.py", X + "config.py", X + "env.py"],
     [("ExperimentBuilder and mixins", X + "experiment.py"), ("AgentFactory.create_policy/create_trainer", X + "agent.py"), ("ActorFactory/CriticFactory", X + "module/actor.py"), ("ParamTransformer", X + "params/policy_params.py")],
     "spies on every constructor involved; arguments, layers, optimiser groups, seeds and outputs compared with the drawn options", "Maximal action is the first upper bound as coded, so boxes with equal symmetric bounds are used; devices other than the CPU are absent.")
prop("H02", "An experiment run follows its documented life cycle and reports what happened",
     "A run first prefills the buffer with the configured number of (random or policy) steps and keeps them, then trains the configured epochs of the configured steps, calling the given callbacks with the current epoch, step and context before collecting and before evaluating, and ends early exactly when the stop callback says so for an evaluation. Epsilon callbacks set the scheduled exploration. Watching plays exactly the configured episodes afterwards, rendering only if asked. The result reports what was done, nothing is trained or written when disabled, and equal configurations give equal runs.",
     [C, H], "all algorithms, sampling options, callbacks, stop points, prefill, watching and disabled parts",
     "The only test checks that a run does not crash; order, counts, callback arguments and the returned result are not looked at.",
     [X + "experiment.py", X + "agent.py", X + "trainer.py", X + "world.py"], [("Experiment.run/create_experiment_world", X + "experiment.py"), ("create_trainer", X + "agent.py"), ("EpochTrainCallbackDQNEpsLinearDecay/EpochStopCallbackRewardThreshold", X + "trainer.py")],
     "online trace monitor: all collections, updates and callbacks of whole runs recorded and parsed by a reference life cycle", "The number of evaluations before the first epoch is not fixed; natural-gradient methods are only constructed, not run.")
prop("H03", "Experiments persist their best policy and restore exactly what was stored",
     "With files enabled, a run stores the experiment, a log and the policy as it was at its best evaluation (and on-policy checkpoints at the configured interval), in either storage mode, notifies every additional persistence handler once per event in order, and refuses to overwrite an existing run unless told to. Restored experiments have exactly the stored policy, or the original initial one if not restoring it. Copied, pickled and rebuilt experiments equal the original and share nothing with it; seeded collections have own names and seeds and disjoint training seeds. Disabled persistence writes nothing but still restores.",
     [C, H, F], "all algorithms, storage modes, handlers, save intervals, names, copies and numbers of seeds",
     "No test restores a policy or compares a copy with its original; which weights were stored is not checked anywhere.",
     [X + "experiment.py", X + "persistence.py", X + "logger.py", X + "module/actor.py"], [("PolicyPersistence/PersistenceGroup", X + "persistence.py"), ("Experiment.from_directory/save", X + "experiment.py"), ("build_seeded_collection", X + "experiment.py"), ("LoggerFactoryDefault", X + "logger.py")],
     "trace monitor: weights recorded at every evaluation compared with the files, restored worlds and copies compared bit for bit", "Off-policy experiments write no checkpoints, as coded. Seeded collections are compared by configuration; registered environment factories keep their own fixed seeds.")
prop("L01", "Launchers run each experiment once and evaluation loads what was logged",
     "Every launcher runs each given experiment exactly once and returns the results of those that succeeded, in order, failing only if all fail (a single experiment runs in place and passes on its error); parallel and sequential runs give the same results. Loading a directory of runs gives, per run, exactly the logged returns at the logged steps, cut to the common length and step limit, with training and evaluation rows of the same run aligned, creating no files. Curves show the interquartile mean per step and the share of runs above each threshold, and are written only when asked.",
     [C, H, F], "all experiment collections, failure patterns, launchers, run lengths, directory layouts and step limits",
     "No test launches several experiments or loads a result; dropped failures, shifted rows and lost points would go unnoticed.",
     ["tianshou/evaluation/launcher.py", "tianshou/evaluation/rliable_evaluation_hl.py"], [("ExpLauncher.launch/_safe_execute", "tianshou/evaluation/launcher.py"), ("RLiableExperimentResult.load_from_disk/eval_results", "tianshou/evaluation/rliable_evaluation_hl.py")],
     "trace monitor: run markers per experiment; event files written with known values and compared with what is loaded and drawn", "Whether a point exactly at the step limit belongs to the result is left open; confidence bands are random and not checked.")
