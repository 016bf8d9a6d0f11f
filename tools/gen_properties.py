"""Source of properties.jsonl.  Run: python3 tools/gen_properties.py"""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['waymax/' + f for f in files],
                          mechanism=[dict(name=n, where='waymax/' + w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where='waymax/' + w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = None
    P.append(d)

SIM = [('timestep', 'index of the last executed time slice', 'datatypes/simulator_state.py'),
       ('sim_trajectory', 'simulated history, one slot per timestep', 'datatypes/simulator_state.py'),
       ('log_trajectory', 'recorded scenario', 'datatypes/simulator_state.py')]

prop('C01', 'Reset replays exactly the warm-up log and blanks everything after it',
     'Resetting any scenario yields a simulation whose clock stands at the last warm-up slot, whose simulated history equals the recorded scenario field for field in every warm-up slot, and whose later slots all hold the invalid marker (-1 for numbers, False for flags). '
     'The result depends only on the recorded scenario, never on what simulated history or clock the passed-in state carried, and the recorded scenario, map, lights, route and object metadata come back unchanged.',
     ['inputs', 'configurations', 'histories'], 'every scenario (any validity pattern, size, horizon), any warm-up length from 1 to the horizon, any earlier simulation history',
     'Tests reset two fixed scenarios with one warm-up length; the dataset-backed environment tests cannot even run here. The claim ranges over all scenarios, warm-up lengths and prior histories.',
     ['env/base_environment.py', 'env/planning_agent_environment.py', 'datatypes/simulator_state.py', 'datatypes/object_state.py'],
     [('reset', 'env/base_environment.py:reset'), ('update_state_by_log', 'datatypes/simulator_state.py'), ('fill_invalid_trajectory', 'datatypes/object_state.py')], SIM,
     ['value returned by reset'])

prop('C02', 'A step appends exactly one time slice and rewrites nothing else',
     'Every environment step advances the simulation clock by exactly one and writes only the time slot it advances to. '
     'Simulated history at and before the current time, not yet reached slots, the recorded scenario, map, traffic lights, routes and object metadata are never altered by stepping, whatever actions are applied.',
     ['histories', 'inputs', 'configurations'], 'all action histories from any reset scenario, all dynamics models and environment configurations',
     'Existing tests compare single steps on one scenario; append-only history is a statement about all action sequences.',
     ['env/base_environment.py', 'env/planning_agent_environment.py', 'dynamics/abstract_dynamics.py', 'datatypes/operations.py'],
     [('step', 'env/base_environment.py:step'), ('apply_trajectory_update_to_state', 'dynamics/abstract_dynamics.py'), ('update_by_slice_in_dim', 'datatypes/operations.py')], SIM,
     ['state returned by step'])

prop('C03', 'Controlled objects obey their action; all other objects replay the log',
     'In the slice written by a step, every controlled object has exactly the pose and velocity its dynamics model computes from its current simulated state and its action, while every non-controlled object has exactly the logged pose and velocity of the new timestep. '
     'For all objects the timestamp comes from the log at the new timestep, and elevation and bounding-box size are carried over from the object\'s current simulated slice. When an update is applied with the constant-velocity fallback, a controlled object whose update is invalid coasts instead: it keeps its velocity, moves on by one interval and faces its direction of travel.',
     ['histories', 'inputs', 'configurations'], 'all action histories, all subsets of controlled objects, all logs',
     'Tests exercise one fixed mask on one fixed trajectory; mixing up objects, fields, timesteps or sources shows only for particular masks and histories where simulation and log have diverged.',
     ['env/base_environment.py', 'dynamics/abstract_dynamics.py', 'dynamics/state_dynamics.py'],
     [('apply_trajectory_update_to_state', 'dynamics/abstract_dynamics.py'), ('forward', 'dynamics/abstract_dynamics.py:DynamicsModel.forward')], SIM,
     ['state returned by step'])

prop('C04', 'Validity lifecycle: no resurrection, no disappearance while controlled',
     'A controlled object that is currently valid stays valid after a step. '
     'Every other object is valid after a step only if the log marks it valid at the new time and, when new objects are not allowed after warm-up, only if it is also valid now, so that an object once invalid never comes back; when new objects are allowed, it is valid exactly when the log says so.',
     ['histories', 'inputs', 'configurations'], 'all validity patterns of the log, all histories, both object-injection settings',
     'Only a handful of validity patterns over one step are unit tested; never-comes-back is a property of whole histories.',
     ['dynamics/abstract_dynamics.py', 'env/base_environment.py'],
     [('next_valid computation', 'dynamics/abstract_dynamics.py:apply_trajectory_update_to_state'), ('allow_new_objects_after_warmup', 'env/base_environment.py:step')], SIM,
     ['validity flags of the state returned by step'])

prop('C05', 'The configured object class alone decides who is controlled',
     'An environment steps under user control exactly the objects of the configured class: the ego vehicle, the objects marked for prediction, or the valid objects - where "valid" means valid at the end of warm-up if new objects are disallowed, and valid anywhere in the recording otherwise. '
     'The set is the same at every step of an episode, and an unsupported class is rejected with an error rather than controlling anything.',
     ['configurations', 'inputs', 'histories'], 'every object class, both injection settings, all metadata and validity patterns, every step of an episode',
     'Tests check two masks on one scenario and only at the first step.',
     ['env/base_environment.py', 'datatypes/simulator_state.py'],
     [('_get_control_mask', 'env/base_environment.py'), ('get_control_mask', 'datatypes/simulator_state.py')], SIM,
     ['which objects respond to actions in step'])

prop('C06', 'Episode clock: end is reached exactly when the log is exhausted, never before',
     'From a reset with W warm-up slots of a T-slot recording exactly T-W steps are possible: the remaining-steps count starts at T-W, falls by one per step, and the episode is reported finished and truncated exactly when it reaches zero. '
     'It is never reported as terminated, for any batch shape.',
     ['histories', 'configurations'], 'every warm-up and horizon length, every number of steps, scalar and batched states',
     'Tests look at one or two fixed clock values; off-by-one errors depend on the horizon, the warm-up length and the number of steps taken.',
     ['datatypes/simulator_state.py', 'env/abstract_environment.py'],
     [('is_done/remaining_timesteps', 'datatypes/simulator_state.py'), ('termination/truncation', 'env/abstract_environment.py')], SIM,
     ['is_done, remaining_timesteps, termination, truncation'])

prop('C07', 'Batched, vectorised and compiled execution equals per-scenario execution',
     'Resetting, stepping, scoring and rewarding a batch of scenarios gives, for each scenario of the batch, the very result obtained by running that scenario alone; compiling or vectorising the calls changes nothing. '
     'No scenario in a batch can influence another.',
     ['inputs', 'configurations', 'histories'], 'all batches of scenarios, all batch shapes, jitted/vmapped/direct execution',
     'Tests check output shapes for batches, not element-wise agreement with unbatched runs across operations and configurations.',
     ['env/base_environment.py', 'datatypes/operations.py', 'dynamics/abstract_dynamics.py', 'metrics/metric_factory.py', 'rewards/linear_combination_reward.py'],
     [('batch-dim handling', 'datatypes/operations.py:_vmap_over_batch_dims'), ('run_metrics', 'metrics/metric_factory.py')], SIM,
     ['reset, step, metrics, reward'])

prop('C08', 'Displacement dynamics integrate position and heading exactly',
     'Under the displacement models an action (dx, dy, dyaw) moves an object by exactly that displacement - along the global axes for the global model, along the object\'s own heading and its left normal for the local model - turns it by dyaw, and sets its velocity to the global displacement divided by the step duration. '
     'The state model sets pose and velocity to the action itself.',
     ['inputs'], 'all object poses, headings, actions and step durations',
     'The delta tests need the missing dataset and cannot run; even there a single recorded trajectory is used.',
     ['dynamics/delta.py', 'dynamics/state_dynamics.py'],
     [('DeltaGlobal/DeltaLocal.compute_update', 'dynamics/delta.py'), ('StateDynamics.compute_update', 'dynamics/state_dynamics.py')], (),
     ['compute_update, forward'])

prop('C09', 'Bicycle dynamics respect acceleration and steering physics and limits',
     'Under the bicycle model an action (acceleration, steering curvature), clipped to the model limits (scaled by them first when actions are normalised), advances the object by constant-acceleration motion along its heading: new position from velocity and acceleration, heading changed by curvature times distance travelled and wrapped, new speed = old speed + acceleration x time pointing along the new heading. '
     'No input action can produce a larger speed change or turn than the limits allow, and the update is valid only if both object and action are.',
     ['inputs', 'configurations'], 'all poses, velocities, actions inside and outside the limits, normalised or raw',
     'The bicycle tests depend on the missing dataset except for trivial shape checks.',
     ['dynamics/bicycle_model.py'],
     [('InvertibleBicycleModel.compute_update', 'dynamics/bicycle_model.py'), ('_clip_values', 'dynamics/bicycle_model.py')], (), ['compute_update, forward'])

prop('C10', 'Inverse dynamics recovers the logged motion and flags what it cannot',
     'For each invertible model, the inferred action is flagged valid exactly when the object is valid in the slots it is derived from, always lies within the model\'s declared bounds, and for invalid transitions of the displacement and bicycle models is zero. '
     'Applying the inferred action forward from the logged state reproduces the next logged pose whenever that motion is feasible for the model.',
     ['inputs', 'histories', 'configurations'], 'all logged trajectories (any validity gaps), all timesteps, all invertible models',
     'Round trips are tested on one dataset trajectory (not available here); validity gaps, bounds and wrap-around headings are not covered.',
     ['dynamics/delta.py', 'dynamics/state_dynamics.py', 'dynamics/bicycle_model.py', 'agents/expert.py'],
     [('inverse', 'dynamics/*.py'), ('infer_expert_action', 'agents/expert.py')], (), ['inverse, forward'])

prop('C11', 'Action discretisation is a bounded bijection with nearest-bin rounding',
     'Index and action vector encodings of a discretised action space are mutually inverse on every cell: each flat index in range decodes to a distinct grid action inside the declared bounds and encodes back to itself. '
     'Any continuous action maps to an in-range index of a nearest grid action, out-of-range components being clipped to the boundary bin.',
     ['inputs', 'configurations'], 'all bin counts, bounds, dimensions, indices and continuous values',
     'Discretiser tests fail here for lack of data and sample one grid; bijectivity is about every cell of every grid.',
     ['dynamics/discretizer.py'],
     [('Discretizer', 'dynamics/discretizer.py')], (), ['discretize, make_continuous'])

prop('C12', 'A discretised dynamics model acts exactly like its continuous model on bins',
     'Stepping a discretised model with an index equals stepping the wrapped continuous model with that index\'s grid action, with the same validity. '
     'The index it infers from a trajectory is always in range, carries the wrapped model\'s validity, and selects a grid action nearest the wrapped model\'s own inferred action (or, in search mode, one whose forward result is nearest the target pose for the controlled object).',
     ['inputs', 'configurations'], 'all wrapped models, bin counts, states and indices, both inference modes',
     'Depends on missing data in the tests; only one grid and trajectory sampled.',
     ['dynamics/discretizer.py'],
     [('DiscreteActionSpaceWrapper', 'dynamics/discretizer.py'), ('inverse_action_by_search', 'dynamics/discretizer.py')], (), ['compute_update, forward, inverse'])

prop('C13', 'Planning step: ego obeys the planner, sim agents merge in order, rest replays',
     'In the planning environment a step moves the ego vehicle by the planner\'s action under the configured dynamics; each other object is moved by the last listed sim agent claiming it (sim agents claim only objects other than the ego), or replays the log if none does, and objects overlapping another at the start of the recording are never taken over by sim agents. '
     'Sim agents always see the pre-step state, and each one\'s internal state is threaded to its own next call in list order; a random key given to reset or step gives each agent its own distinct key determined by it; mismatched agent, parameter or state counts and a non-ego controlled class are rejected with an error.',
     ['histories', 'configurations', 'inputs'], 'all action histories, any list of sim agents with any claim masks, all scenarios',
     'Planning environment tests need missing data; precedence among several sim agents over multi-step histories is untested.',
     ['env/planning_agent_environment.py'],
     [('step', 'env/planning_agent_environment.py:PlanningAgentEnvironment.step'), ('_initialized_overlap', 'env/planning_agent_environment.py')],
     SIM + [('sim_agent_actor_states', 'one internal state per sim agent', 'env/planning_agent_environment.py')], ['state returned by step'])

prop('C14', 'Planning rewards and metrics are those of the ego vehicle only',
     'Every built-in per-object metric and the reward reported by the planning environment is the ego vehicle\'s own entry of the multi-agent result for the same state, wherever the ego sits in the object list. '
     'Kinematic feasibility is reported as invalid and zero in the first state after reset and as the ego\'s value later; with reward computation disabled the reward is zero.',
     ['inputs', 'histories', 'configurations'], 'all states, ego positions, metric and reward configurations',
     'Needs missing data in the tests; ego is always at one index there.',
     ['env/planning_agent_environment.py', 'datatypes/operations.py'],
     [('metrics', 'env/planning_agent_environment.py:metrics'), ('reward', 'env/planning_agent_environment.py:reward'), ('select_by_onehot', 'datatypes/operations.py')], (), ['metrics, reward'])

prop('C15', 'A rollout equals the manual reset-select-step loop',
     'A rollout of n steps returns n+1 aligned entries: entry k holds the state, observation and metrics after k steps, the action the actor chose there, and the reward of that state and action, all identical to running the reset, select-action, step loop by hand. '
     'The last entry carries an all-zero, invalid action, and the actor\'s parameters and internal state are threaded from each selection to the next.',
     ['histories', 'configurations', 'inputs'], 'all actors (stateful or not), environments, scenarios and rollout lengths',
     'Rollout tests need missing data and check mainly shapes.',
     ['env/rollout.py'], [('rollout', 'env/rollout.py'), ('rollout_log_by_expert_sdc', 'env/rollout.py')], SIM, ['RolloutOutput'])

prop('C16', 'The stateful episode interface follows its protocol in every call order',
     'Stepping or reading the simulation before a successful reset fails with the not-initialised error, and stepping after the last step of an episode fails with the already-finished error until the next reset; resetting starts the next scenario of the generator in order. '
     'Each episode is one FIRST step, then MID steps, then exactly one LAST step when the recording is exhausted, each reporting the reward of the state before the action, the observation after it, and discount 1.',
     ['histories', 'inputs'], 'every sequence of reset/step/read calls, every scenario stream, horizon and batch size',
     'Wrapper tests need missing data and take a single pass; call-order properties quantify over all interleavings of calls.',
     ['env/wrappers/dm_env_wrapper.py', 'env/errors.py'],
     [('DMEnvWrapper.reset/step', 'env/wrappers/dm_env_wrapper.py')],
     [('_initialized/_done/_cur_state', 'episode protocol state', 'env/wrappers/dm_env_wrapper.py')], ['TimeStep, raised errors'])

prop('C17', 'The functional episode wrapper mirrors the wrapped environment',
     'Resetting through the functional wrapper yields the wrapped environment\'s reset state and its observation and metrics, zero reward, discount one and not done. '
     'Stepping yields the wrapped environment\'s next state and observation, the reward and metrics of the state before the step, done exactly when the next state is finished, and discount zero only on termination.',
     ['histories', 'configurations', 'inputs'], 'all action histories, environments, scenarios and batch shapes',
     'Brax wrapper tests need missing data and test one environment configuration.',
     ['env/wrappers/brax_wrapper.py'], [('BraxWrapper.reset/step', 'env/wrappers/brax_wrapper.py')], (), ['TimeStep'])

prop('C18', 'Overlap metric: exactly the valid objects whose boxes intersect a valid other',
     'An object\'s overlap value is 1 exactly when its oriented bounding box intersects, with positive area, the box of some other object, both being valid at the scored time, and 0 otherwise; objects that are not valid then are reported as invalid. '
     'The relation is symmetric, never counts an object against itself, ignores invalid objects wherever their stale data lies, and is computed from the simulated trajectory at the current time.',
     ['inputs', 'histories'], 'all configurations of oriented boxes, validity flags, object counts and times',
     'Two fixed geometries are tested; box-box intersection has a rich case space (rotations, containment, edge crossings, validity).',
     ['metrics/overlap.py', 'utils/geometry.py'],
     [('OverlapMetric', 'metrics/overlap.py'), ('compute_pairwise_overlaps/has_overlap', 'utils/geometry.py')], (), ['metric value and valid'])

prop('C19', 'Off-road metric flags exactly objects with a corner beyond the road edge',
     'An object that is valid now is reported off-road exactly when some corner of its bounding box lies on the outer side of the road edge nearest to it, judged with 3-D nearness, using only valid road-edge points and never joining points of different edges. '
     'The result is valid for every such object, nobody is off-road when the map has no valid road edge, and reordering or adding whole map features that are not road edges does not change it.',
     ['inputs'], 'all object poses, road-edge polylines, elevations and validity patterns',
     'Tests use a few straight edges; nearest-edge selection, side test and validity handling vary with the geometry.',
     ['metrics/roadgraph.py', 'utils/geometry.py'],
     [('is_offroad/compute_signed_distance_to_nearest_road_edge_point', 'metrics/roadgraph.py')], (), ['metric value and valid'])

prop('C20', 'Wrong-way metric measures distance to the nearest drivable lane',
     'The wrong-way value of the ego is its distance to the closest valid point of any valid route path whenever that distance exceeds the documented threshold and 0 otherwise, and for a valid ego the metric is valid exactly when some path point is. '
     'Other objects and invalid path points never influence it.',
     ['inputs'], 'all ego positions, path sets and validity patterns', 'A few fixed paths are tested.',
     ['metrics/roadgraph.py'], [('WrongWayMetric', 'metrics/roadgraph.py')], (), ['metric value and valid'])

prop('C21', 'Progression: 0 at the start, 1 at the logged end, monotone along the route',
     'Progression equals the fraction of the route distance, between the ego\'s positions in the first and last recorded slots, that its current position has covered, measured by arc length along the on-route path closest to the ego: 0 at the first logged position, 1 at the last, growing as the ego moves along the path. '
     'It depends on the ego only, and it is invalid with value zero when the ego is invalid or no on-route path is available.',
     ['inputs', 'histories'], 'all ego trajectories, paths and validity patterns', 'Tests use a handful of straight routes.',
     ['metrics/route.py'], [('ProgressionMetric', 'metrics/route.py')], (), ['metric value and valid'])

prop('C22', 'Off-route metric flags the ego exactly when it leaves every on-route path',
     'The off-route value of the ego is its distance to the nearest on-route path when that distance exceeds the documented threshold, or when some off-route path is closer than the on-route ones by more than the documented margin, and 0 otherwise. '
     'It depends only on the ego\'s current simulated position and valid path points, and is invalid when the ego or the on-route paths are.',
     ['inputs'], 'all ego positions, path sets and validity patterns', 'Tests use a handful of straight routes.',
     ['metrics/route.py'], [('OffRouteMetric', 'metrics/route.py')], (), ['metric value and valid'])

prop('C23', 'Log divergence is the current distance between simulated and logged position',
     'The log-divergence value of each object is the planar distance between its simulated and its logged position at the current simulation time, valid exactly when both are valid there. '
     'It is zero for every object that replays the log.',
     ['histories', 'inputs'], 'all histories, logs and validity patterns', 'One fixed trajectory pair is tested.',
     ['metrics/imitation.py'], [('LogDivergenceMetric', 'metrics/imitation.py')], (), ['metric value and valid'])

prop('C24', 'Kinematic infeasibility flags exactly transitions outside vehicle limits',
     'At any time after the first slot, the kinematic value of an object is 1 exactly when the motion between its previous and current simulated slots needs an acceleration or steering curvature beyond the configured limits, and 0 otherwise, valid exactly when both slots are valid. '
     'Steps produced by the bicycle model within the same limits are never flagged.',
     ['histories', 'inputs'], 'all pairs of consecutive states and histories', 'Comfort tests need missing data.',
     ['metrics/comfort.py'], [('KinematicsInfeasibilityMetric', 'metrics/comfort.py')], (), ['metric value and valid'])

prop('C25', 'Exactly the requested metrics are reported, each under its own name',
     'Running metrics returns precisely the configured set of names, each with the result that metric gives on its own for the same state; the order or presence of other metrics has no effect. '
     'Unknown names and duplicate registrations are rejected with an error, and a newly registered metric is available under its name from then on.',
     ['configurations', 'histories'], 'all subsets and orders of metric names, all registration histories', 'Only a couple of lists are tested.',
     ['metrics/metric_factory.py', 'config.py'], [('run_metrics/register_metric', 'metrics/metric_factory.py')],
     [('registry', 'name to metric map', 'metrics/metric_factory.py')], ['run_metrics, register_metric'])

prop('C26', 'Reward is the weighted sum of valid metric values for controlled objects only',
     'Each object\'s reward is the sum over the configured metrics of weight times that object\'s metric value, an invalid metric contributing zero, and objects outside the controlled class always receive zero. '
     'The result depends linearly on each weight, is unaffected by other objects\' metrics, and is all zeros when reward computation is disabled.',
     ['inputs', 'configurations'], 'all states, weights, controlled classes and metric subsets', 'Tests use mocked metrics and fixed weights.',
     ['rewards/linear_combination_reward.py', 'env/base_environment.py'], [('LinearCombinationReward.compute', 'rewards/linear_combination_reward.py'), ('reward', 'env/base_environment.py')], (), ['reward'])

prop('C27', 'Observations are rigid transforms of the scene into the requested frame',
     'In the ego or object frame every observed position, velocity and heading - trajectories, road points and traffic lights - is the global value moved by the rigid motion that puts the reference object\'s current position at the origin with its heading along x; distances and relative headings are preserved, sizes, types and ids are untouched, and an item is valid exactly when it and the reference object are. '
     'In the global frame nothing is transformed, and the reported pose maps observed coordinates to global ones.',
     ['inputs', 'configurations'], 'all scenes, reference poses, frames, history lengths', 'Observation tests need missing data and check a single scene.',
     ['datatypes/observation.py', 'utils/geometry.py'], [('transform_*', 'datatypes/observation.py'), ('observation_from_state/sdc_observation_from_state', 'datatypes/observation.py')], (), ['observation functions'])

prop('C28', 'Observation windows contain exactly the latest history, never the future',
     'An observation with h history steps, taken when at least h slots have passed, contains, in time order, exactly the h most recent slots ending at the current time for simulated trajectories and traffic lights, never a later slot, with each object\'s own marker set for itself only and metadata, validity and route data aligned to the right object. '
     'Changing any slot outside the window, simulated or recorded, leaves the observation unchanged.',
     ['histories', 'inputs', 'configurations'], 'all states whose clock covers the window, all window lengths and frames',
     'Observation tests need missing data; information leaking from the future shows only for particular clocks and windows.',
     ['datatypes/observation.py'], [('observation_from_state/sdc_observation_from_state', 'datatypes/observation.py')], (), ['observation functions'])

prop('C29', 'Nearest-k map filtering keeps exactly the k closest valid points intact',
     'Filtering map points around a location returns exactly the k valid points closest to it (fewer valid ones leave the remaining entries invalid), each with its own coordinates, direction, type and identifier unchanged. '
     'Asking for more points than exist is rejected with an error.',
     ['inputs'], 'all point sets, reference locations, k and validity patterns', 'One fixed set is tested.',
     ['datatypes/roadgraph.py'], [('filter_topk_roadgraph_points', 'datatypes/roadgraph.py')], (), ['filter result'])

prop('C30', 'Reference actors act as specified and only on the objects they claim',
     'The log-replay actor outputs the action that carries the logged state to its next slot; the constant-speed actor keeps every object\'s heading and outputs the action that extrapolates its position by one interval at its current velocity, or at the configured speed along its heading (standing still at speed zero), invalid for objects that it does not control or that are invalid; a frozen agent repeats the current pose. '
     'Each actor reports as controlled exactly the objects its selection rule picks for the given state, on every step.',
     ['histories', 'inputs', 'configurations'], 'all states, timesteps and selection rules', 'Actor tests need missing data or check one step.',
     ['agents/expert.py', 'agents/constant_speed.py', 'agents/actor_core.py'], [('create_expert_actor', 'agents/expert.py'), ('create_constant_speed_actor', 'agents/constant_speed.py')], (), ['select_action'])

prop('C31', 'Merging actor outputs gives each object the action of the actor controlling it',
     'Merging several actors\' outputs yields, for every object, exactly the action and validity of the actor that controls it. '
     'The result does not depend on what uncontrolled entries of any actor contain nor on the order of actors with disjoint claims.',
     ['inputs', 'configurations'], 'all numbers of actors, disjoint claim masks and action values', 'One fixed example is tested.',
     ['agents/actor_core.py'], [('merge_actions', 'agents/actor_core.py')], (), ['merge result'])

prop('C32', 'IDM agents keep to their path, never reverse and slow down for what is ahead',
     'A rule-based car-following agent never outputs a negative speed, its next position lies on its reference path, and until the path ends its speed follows the intelligent-driver law: it accelerates towards the desired speed on a free road and brakes for the nearest object ahead that blocks its path. '
     'Objects that are invalid, or behind it or clear of its path, do not affect it.',
     ['inputs', 'histories'], 'all scenes and histories', 'The IDM tests need missing data for any end-to-end run.',
     ['agents/waypoint_following_agent.py'], [('IDMRoutePolicy', 'agents/waypoint_following_agent.py')], (), ['select_action'])

prop('C33', 'Waypoint followers advance along their own path and vanish where it ends',
     'A waypoint-following agent moves each controlled object along its own logged path by its chosen speed, travelling the mean of its current and chosen speed for one interval and landing on the path\'s direction at the nearest recorded point, whose heading it takes (velocity: the chosen speed along its current heading); it reports an invalid update exactly for objects that are invalid, that have no chosen speed, or (when so configured) that move on past the end of their path or have lost it. '
     'Objects not in the simulation contribute only filler values.',
     ['inputs', 'histories'], 'all logged paths, speeds and timesteps', 'Tests need missing data.',
     ['agents/waypoint_following_agent.py'], [('WaypointFollowingPolicy.update_trajectory', 'agents/waypoint_following_agent.py')], (), ['select_action'])

prop('C34', 'The data pipeline delivers every record exactly once per epoch, correctly shaped',
     'Reading a dataset delivers every record of every file exactly once per epoch and repeats whole epochs as often as configured (for ever when unlimited, without starving any file), in batches of exactly the configured dimensions; with drop_remainder each loading shard may lose only its own incomplete final batch, without it nothing is lost. '
     'Unshuffled deterministic reading keeps the recorded order of each file; seeded shuffling (any seed) only permutes and is reproducible; several hosts partition the files; shard file names expand to exactly the files they denote.',
     ['configurations', 'inputs'], 'all shard layouts, record counts, batch shapes, repeat counts, seeds', 'The dataloader tests need the missing dataset.',
     ['dataloader/dataloader_utils.py', 'dataloader/womd_dataloader.py'], [('tf_examples_dataset', 'dataloader/dataloader_utils.py'), ('generate_sharded_filenames', 'dataloader/dataloader_utils.py')], (), ['tf_examples_dataset'])

prop('C35', 'Decoded scenarios place every recorded value at its object and time',
     'Decoding a recorded example puts past, current and future samples of each object in time order into one trajectory, with every position, velocity, heading (as an equivalent angle in [-pi, pi)), timestamp and validity at its own object and time, each size the mean over the object\'s valid samples, and traffic lights, map points, paths and object attributes likewise. '
     'Limiting the number of objects keeps exactly the leading ones, batching never mixes scenarios, and the simulation starts with only the first recorded step filled in. The record format asked for is the public dataset\'s: its feature names, shapes and types, with 10 past, one current and 80 future steps and its default sizes.',
     ['inputs', 'configurations'], 'all record contents, object limits, batch shapes and time windows', 'Only dataset-backed tests exist for the full decode.',
     ['dataloader/womd_utils.py', 'dataloader/womd_factories.py', 'dataloader/dataloader_utils.py'], [('aggregate_time_tensors', 'dataloader/womd_utils.py'), ('simulator_state_from_womd_dict', 'dataloader/womd_factories.py')], (), ['preprocess + factories'])

prop('C36', 'Time slicing, indexing and masking act on every field at the right element',
     'Slicing, indexing, overwriting and selecting on structured batched data act on every leaf alike: element b uses its own start index, and for ranges inside the array exactly the requested range is read or written, everything outside it is untouched, and one-hot selection returns the selected element unchanged in value and type. '
     'Masked updates and masked means use exactly the masked-in elements.',
     ['inputs'], 'all shapes, batch ranks, indices in range, masks', 'A few shapes are tested.',
     ['datatypes/operations.py', 'datatypes/array.py'], [('dynamic_slice/dynamic_index/update_by_slice_in_dim/select_by_onehot/masked_mean', 'datatypes/operations.py')], (), ['operations'])

prop('C37', 'Geometry helpers are exact rigid-body geometry',
     'Box corners, rotations, point and heading transforms and heading wrapping agree with Euclidean geometry: transforms preserve distances and compose and invert correctly, corners lie half a length and width from the centre in order, and wrapped headings are equivalent angles in [-pi, pi). '
     'Results do not depend on batch shape.',
     ['inputs'], 'all poses, boxes and angles', 'Fixed examples only.',
     ['utils/geometry.py'], [('corners_from_bboxes/transform_points/rotate_points/wrap_yaws', 'utils/geometry.py')], (), ['geometry functions'])

prop('C38', 'Declared specs describe what the environments accept and produce',
     'The action, reward, discount and observation specs an environment or wrapper declares match, in shape, bounds and type, what it really accepts and returns for every configuration and batch shape. '
     'Any action within the declared spec is accepted, and inconsistent configurations are rejected at construction.',
     ['configurations'], 'all environments, dynamics models, wrappers and sizes', 'Spec tests need missing data or cover one configuration.',
     ['env/base_environment.py', 'env/planning_agent_environment.py', 'env/wrappers/dm_env_wrapper.py', 'config.py'], [('*_spec', 'env/*.py'), ('__post_init__', 'config.py')], (), ['spec methods'])

prop('C39', 'Exporting a simulated state reproduces what was simulated',
     'Converting a simulator state back to the recorded format yields, for the current step and the preceding history, exactly the simulated (not logged) trajectories of every object at their time, with speed and velocity heading derived from the simulated velocity, the traffic lights, map points and attributes of the same steps, and nothing of the future (every future field is the invalid marker). '
     'Reading the exported record again gives the same state; with validation on, a state with any other amount of history is rejected.',
     ['inputs', 'histories'], 'all simulated states, clocks and requested sizes', 'No test of the export runs without the dataset.',
     ['dataloader/womd_utils.py', 'dataloader/womd_factories.py'], [('simulator_state_to_womd_dict', 'dataloader/womd_utils.py')], (), ['simulator_state_to_womd_dict'])

prop('C40', 'Data containers are well formed, comparable and read consistently',
     'Validating a container (metadata, trajectories, map points, paths, traffic lights, updates, actions, poses, masked arrays, metric results, whole states) accepts it when every field has the documented type and the container\'s shape and rejects it when any one field does not. '
     'Two containers compare equal exactly when they are of one class and every part has the same values: never an error, and a single different element is a difference. '
     'The derived views (stacked positions, velocities, directions, speed and direction of travel with their invalid markers, masked values, actions of updates, sizes) are the recorded fields, element by element and in the documented order, and the type, state and edge vocabularies are those of the Waymo Open Motion Dataset.',
     ['inputs', 'shapes'], 'all containers, shapes, single-field defects and values', 'Tests build a few well-formed containers; none checks that each field takes part in validation and equality.',
     ['datatypes/object_state.py', 'datatypes/action.py', 'datatypes/array.py', 'datatypes/roadgraph.py', 'datatypes/route.py', 'datatypes/traffic_lights.py', 'datatypes/simulator_state.py'], [('Trajectory', 'datatypes/object_state.py'), ('compare_all_leaf_nodes', 'datatypes/operations.py')], (), ['compare_all_leaf_nodes'])

prop('C41', 'Pictures show exactly the scene at the highlighted step',
     'A picture of a simulator state, observation or time step shows, for exactly the objects valid at the highlighted step, one full-size box with its heading and its number beside it, in the controlled or the context colour; for valid later steps small boxes; for valid earlier steps centre dots; and, on top and in red, exactly those objects that touch another valid object at that step. '
     'It shows exactly the valid map points of the shown types, the traffic lights valid at that step in the colour of their state, the valid points of the (on or off) route paths and the valid metric values, where they are in the data. '
     'The window is centred on the SDC (or the chosen agent) with the configured margins and the returned image is what was rendered, at the configured size; data of the wrong rank, batch or step are rejected; the data are left as they were.',
     ['inputs', 'configurations'], 'all scenes, steps, masks, batches and view configurations', 'The visualisation tests only look at the shape of one image (and need the dataset).',
     ['visualization/viz.py', 'visualization/utils.py', 'visualization/color.py'], [('plot_trajectory', 'visualization/viz.py'), ('plot_simulator_state', 'visualization/viz.py')], (), ['plot_simulator_state'])

out = pathlib.Path(__file__).resolve().parents[1] / 'properties.jsonl'
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
for p in P: assert len(p['title']) <= 80, (p['id'], len(p['title']))
print(len(P))
