#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, pathlib

P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": ["putting_dune/" + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": None}})

prop("C01", "The silicon atom is conserved and only hops to a bonded neighbour",
 "After any reset and any sequence of beam controls the simulated material contains exactly one silicon atom and otherwise only carbon, and the lattice sites never move, appear or disappear between resets. Every transition moves the silicon to one of the three lattice sites nearest to where it was (its bonded neighbours in the sheet interior), as one of the successor states offered by the rate function, and nothing but a reset or a transition changes the material.",
 ["histories", "inputs"], "all seeds, sheet sizes, rate functions and histories of resets, beam exposures and imaging calls",
 "The tests apply a handful of controls and look at one grid; conservation must survive every history of multi-transition dwells, recentres and resets.",
 ["graphene.py", "simulator.py", "geometry.py"],
 [("PristineSingleSiGrRatePredictor / GaussianMixtureRateFunction build successor grids", "graphene.py"), ("PristineSingleDopedGraphene.apply_control", "graphene.py")],
 [("material.grid", "sites and atomic numbers", "graphene.PristineSingleDopedGraphene")], ["material.grid", "SimulatorObserver.observe_transition"])

prop("C02", "Beam exposure follows the kinetic Monte Carlo law",
 "While a control of a given dwell time is applied, transitions happen at non-decreasing times since the control started, none later than the dwell time; the waiting time to each transition is exponential with the total rate of the state at that moment, and the successor is picked with probability proportional to its rate, so a zero-rate successor is never picked, and nothing happens for as long as all the rates are zero. After each transition the rates are re-evaluated on the new material state with the same beam position, and the dwell time that is left is what limits further transitions.",
 ["histories", "inputs", "configurations"], "all rate functions (including state dependent and partly zero ones), beam positions, dwell times and seeds",
 "Tests only check that some or no transition happens for one seed; the law is about the joint distribution and about multi-transition dwells.",
 ["graphene.py"], [("KMC loop", "graphene.PristineSingleDopedGraphene.apply_control")],
 [("elapsed_time", "time consumed of the dwell", "apply_control")], ["RateFunction calls", "observe_transition"])

prop("C03", "The clock charges exactly dwell time plus imaging time",
 "The elapsed time of every observation returned by the simulator is exactly the sum of the dwell times of the controls applied since the previous observation plus one image duration per image taken, where a reset takes one image and a step takes one, or two when the field of view had to be moved. The same controls are reported back in the observation, unchanged and in order, and the environment charges its discount for exactly that elapsed time.",
 ["histories", "configurations"], "all histories of resets and steps, zero or more controls per step, all image durations and dwell times",
 "Tests check the elapsed time of one or two fixed calls, never of a history in which the field of view moves.",
 ["simulator.py", "putting_dune_environment.py"], [("elapsed_time accumulation", "simulator.PuttingDuneSimulator.step_and_image"), ("_get_observed_grid_and_elapsed_time", "simulator.py")],
 [("image_duration", "time charged per image", "PuttingDuneSimulator")], ["MicroscopeObservation.elapsed_time"])

prop("C04", "The field of view tracks the silicon and shows exactly what is in it",
 "A reset centres a square field of view of 15 to 30 angstroms on the silicon; its size never changes until the next reset, and it moves only when, after the controls of a step, the silicon is outside the central half of the frame (either coordinate below 0.25 or above 0.75) or not visible, in which case it is recentred on the silicon. Every observation returned contains exactly the material's atoms inside the returned field of view, each with its element, mapped to microscope coordinates (lower left corner (0,0), upper right corner (1,1)), so the silicon is always visible.",
 ["histories", "inputs"], "all histories of resets and steps, all materials and controls",
 "Tests drive the silicon out of the frame once along one direction; the tracking rule must hold in every direction and after any history.",
 ["simulator.py", "graphene.py", "microscope_utils.py"], [("safe area test and recentring", "simulator.PuttingDuneSimulator.step_and_image"), ("get_atoms_in_bounds", "graphene.PristineSingleDopedGraphene")],
 [("fov", "current field of view", "PuttingDuneSimulator")], ["MicroscopeObservation.fov", "MicroscopeObservation.grid"])

prop("C05", "Simulator observers see every event once, in causal order",
 "Every registered observer is told, once each and in causal order, of each reset, applied control (in the material frame, with its dwell time and beam parameters unchanged), material transition, field-of-view change, image taken and image generated, with the values in force at that moment, and replaying those events reproduces the simulator's material, field of view, clock and image. All observers see the same sequence, an observer added or removed only affects events from then on and only itself, and observing never changes what the simulator does.",
 ["histories", "schedules"], "all histories interleaving resets, steps with any number of controls, image requests and observer registrations",
 "Tests count a few events after one call with one observer; they never compare several observers, replay the events or look at every payload.",
 ["simulator.py", "simulator_observers.py", "graphene.py", "microscope_utils.py"], [("observer notification", "simulator.PuttingDuneSimulator"), ("observe_transition notification", "graphene.PristineSingleDopedGraphene.apply_control"), ("EventObserver", "simulator_observers.py")],
 [("_observers", "registered observers", "PuttingDuneSimulator")], ["SimulatorObserver callbacks", "EventObserver.events"])

prop("C06", "The RL environment obeys the dm_env episode protocol",
 "The first step of an environment after construction, and any step after the episode ended, starts a new episode exactly as a reset does and ignores the action; otherwise a step yields MID until the goal reports a terminal state (LAST with discount 0) or a truncation (LAST with the running discount). The first time step of an episode has reward 0; every later reward is what the goal gave for that observation, and every non-zero discount is the per-second discount raised to that observation's elapsed seconds. An episode begins by resetting the simulator, the action adapter, the feature constructor and the goal once each, and each step consults each exactly once, with the adapter given the previous observation and the features and goal given the new one.",
 ["histories", "fault_sequences"], "all interleavings of reset and step, all goal outcomes (terminal, truncated, neither) and elapsed times, before and after failed resets",
 "Tests use one environment and a few random steps; protocol violations need a terminal at a particular place followed by particular calls.",
 ["putting_dune_environment.py", "run_helpers.py"], [("_requires_reset", "putting_dune_environment.PuttingDuneEnvironment.step")],
 [("_requires_reset", "episode over flag", "PuttingDuneEnvironment")], ["dm_env.TimeStep"])

prop("C07", "The step limit truncates exactly at the limit and then starts afresh",
 "With a step limit of N, an episode that has not ended by itself is truncated (LAST, keeping that step's reward, observation and discount) at exactly its N-th step after the first time step, never earlier or later, whatever happened in earlier episodes; the step after a truncation, like the step after any ended episode or on a fresh environment, starts a new episode and is not counted. Without a limit the wrapped environment's behaviour is unchanged, and in all other respects (specs, attributes, reset) the wrapper is transparent.",
 ["histories", "configurations"], "all limits including none, all interleavings of reset and step, and inner episodes ending before, at or after the limit",
 "The copied wrapper has no tests of its own; the counter must be right across every sequence of truncated, terminated and manually reset episodes.",
 ["run_helpers.py"], [("_elapsed_steps", "run_helpers.StepLimitWrapper.step")],
 [("_elapsed_steps", "steps taken in this episode", "StepLimitWrapper")], ["dm_env.TimeStep"])

prop("C08", "The goal is reachable, fixed in the material, and judged by distance",
 "Resetting the goal picks, among the atoms visible in the initial observation, one whose distance from the silicon in angstroms lies strictly between the configured minimum and maximum, with every such atom possible; if there is none or no silicon, it raises an error. The goal then stays at that material position whatever the field of view does, an observation is terminal exactly when its silicon lies within half a carbon bond of it in the material frame, and the reward is the per-second discount raised to that observation's elapsed time when terminal and 0 otherwise; goals are never truncated.",
 ["inputs", "histories"], "all observed grids, fields of view (also non-square), goal ranges, seeds and later observations",
 "Tests use one grid, one FOV scale and a couple of positions; frame and scale mistakes only show when the FOV is shifted, rescaled or not square.",
 ["goals.py", "graphene.py", "microscope_utils.py"], [("SingleSiliconGoalReaching.reset / calculate_reward_and_terminal", "goals.py")],
 [("goal_position_material_frame", "goal in angstroms", "SingleSiliconGoalReaching")], ["GoalReturn", "current_goal"])

prop("C09", "Coordinate frames convert consistently for every kind of value",
 "For every field of view, converting between the microscope frame (lower left corner (0,0), upper right corner (1,1)) and the material frame (angstroms) is the same affine map for points, arrays of a point or a list of points, grids and beam controls, the two directions are inverse to each other, and everything that is not a position (elements, dwell time, voltage, current, array shape) is carried over unchanged. Shifting a field of view translates it rigidly; resizing and zooming keep its centre (zooming by z divides both sides by z); selecting atoms in bounds keeps exactly the atoms inside the bounds grown by the tolerance, in order; inputs are never modified.",
 ["inputs", "histories"], "all fields of view (also non-square), points, grids and controls, and compositions of the operations",
 "Tests check the conversions on a few values of each type; consistency across types, axes and compositions is never checked.",
 ["microscope_utils.py", "geometry.py"], [("MicroscopeFieldOfView", "microscope_utils.py")], [], ["return values"])

prop("C10", "Action adapters place the beam where the agent asked, inside the frame",
 "Every adapter turns an action into exactly one beam control whose position lies in the unit square and whose dwell time lies in the configured range. The direct adapter uses the action clipped to the frame; the delta adapter adds the action to the previous beam position, clips, and remembers the result until reset draws a new random start; the relative adapters offset the observed silicon by the action times the unit distance (clipped to one unit per axis) or by the action in angstroms, in both cases correctly for non-square fields of view, and an action's third component interpolates the dwell time linearly between minimum and maximum. Adapters never modify the caller's action or observation, raise when not exactly one silicon is visible if they need one, and their action specs have the shape of the actions described and, for the adapters whose actions are in units of the frame or of the unit distance, admit exactly them.",
 ["inputs", "histories", "configurations"], "all actions (also out of range), observations, dwell ranges, unit distances, and sequences of calls and resets",
 "Tests use one action per adapter on a square FOV.",
 ["action_adapters.py"], [("get_action", "action_adapters.py")], [("beam_pos", "accumulated position", "DeltaPositionActionAdapter")], ["BeamControl", "action_spec"])

prop("C11", "A seeded run is reproducible and independent of what came before",
 "After seeding an environment with the same seed, the same sequence of calls, from the next reset on, yields identical observations, rewards, discounts, fields of view, goals, images and events, whether the environment is fresh or has already run other episodes, and regardless of attached observers, of other environments being used in between and of global random state. Different seeds give different episodes. The same holds for a material, simulator, goal, adapter, agent, image generator and rate-function sampler given generators in the same state.",
 ["histories", "schedules", "configurations"], "all seeds, all histories before re-seeding, and interleavings with other environments and global random number use",
 "No test compares two runs after different histories; leaked state (caches, mutated defaults, unseeded generators) needs exactly that.",
 ["putting_dune_environment.py", "simulator.py", "graphene.py", "action_adapters.py", "imaging.py", "eval_lib.py"], [("PuttingDuneEnvironment.seed", "putting_dune_environment.py")],
 [("_rng", "generator passed down the stack", "PuttingDuneEnvironment")], ["dm_env.TimeStep", "MicroscopeObservation"])

prop("C12", "Serialised data comes back equal, with absent fields absent",
 "Converting any grid, beam control, field of view, observation, transition, trajectory, drift or labelled alignment trajectory to its protocol buffer, to bytes and back yields an equal object up to single precision: same atoms and elements in order, controls in order with position, dwell time, voltage and current, elapsed time, and images and label images with their shape, type and values exactly where they were present and absent where they were absent, each independently of the others. Record files give back the written records in order and complete, of the requested type or as raw bytes, and unknown file extensions are refused.",
 ["inputs", "histories"], "all combinations of present and absent optional fields, empty and non-empty sequences, array shapes and dtypes, values",
 "Tests round-trip one fully populated instance per type, so presence mix-ups and truncation of values go unnoticed.",
 ["microscope_utils.py", "io.py", "putting_dune.proto"], [("to_proto / from_proto", "microscope_utils.py"), ("read_records / write_records", "io.py")], [], ["round-tripped objects"])

prop("C13", "The microscope agent drives the episode like the environment would",
 "On a microscope, the first step after a reset that sees a silicon presents the agent with a FIRST time step (unless the goal is already met), later ones with MID, and the goal's verdict turns it into LAST (discount 0 if terminal, running discount if truncated), with reward, discount and features computed from that observation; the beam controls returned are those of the action adapter for that observation and the agent's action. When no silicon is visible the agent and the adapter are not consulted, a zero-dwell rescan at the origin is returned, and neither goal progress nor the pending FIRST step is lost.",
 ["histories", "fault_sequences"], "all sequences of resets and observations, including ones without silicon at any point, all goal outcomes",
 "Tests cover one reset, one normal step and one missing-silicon step in isolation.",
 ["microscope_agent.py"], [("MicroscopeAgent.step", "microscope_agent.py")], [("_is_first_step", "FIRST pending", "MicroscopeAgent")], ["agent.step input", "returned controls"])

prop("C14", "The agent log is a faithful account of the run",
 "After any sequence of resets and steps, flushing the logger writes one step row per step taken, in order, with that step's episode number (episodes that took at least one step are numbered from 0), its 1-based position in the episode, and the reward, elapsed seconds and terminal flag of its observation (reward 0 and not terminal when no silicon was visible); one episode row per such episode with the same number, its number of steps, the sum of its rewards and the goal it pursued; and one trajectory per such episode holding exactly its observations in order. Logging never changes what the wrapped agent does or returns, repeated flushes write the same account as a single one, and nothing is written when the run fails with an exception.",
 ["histories", "crash_points", "fault_sequences"], "all interleavings of resets, steps (with and without visible silicon, terminal or not) and flushes, and exceptions at any point",
 "The test only checks row counts and columns of one run.",
 ["microscope_agent.py", "io.py"], [("MicroscopeAgentLogger", "microscope_agent.py")], [("_episode, _episode_step, _episode_return", "log position", "MicroscopeAgentLogger")], ["steps.csv", "episodes.csv", "trajectories.tfrecords"])

prop("C15", "Transitions pair adjacent observations with the control between them",
 "Extracting transitions from trajectories yields, for each trajectory in order, exactly one transition per pair of adjacent observations, and none across trajectories: grid, field of view, image and label image before come from the first and after from the second, and the controls are those of the first observation, or of the second when the data records previous controls at the current time step.",
 ["inputs", "histories"], "all lists of trajectories of any lengths (including empty and single), with any pattern of present and absent images",
 "There is no test of this extraction.",
 ["pipeline/trajectories_to_transitions.py"], [("trajectories_to_transitions", "pipeline/trajectories_to_transitions.py")], [], ["returned transitions"])

prop("C16", "Transition data is labelled with the neighbour the silicon moved to",
 "Turning a recorded transition into a training example uses it only if it has exactly one control, exactly one silicon before and after, a threefold-coordinated silicon and an after-silicon on or next to the before site with a matching neighbourhood; otherwise it is left out without disturbing the others. The label is 0 if the silicon stayed and otherwise the 1-based counter-clockwise index of the neighbour it moved to, counted from the neighbour nearest the beam, and the beam position is relative to the silicon in angstroms, rotated so that this neighbour points along positive x; dwell time, current and voltage are carried over. The example is invariant under translating or rotating the whole scene, moving either field of view, and reordering atoms.",
 ["inputs"], "all transitions: lattice orientation, sublattice, beam position, fields of view before and after, atom orders, and malformed scenes",
 "There is no test of the conversion; label errors only show under particular orientation and ordering combinations.",
 ["pipeline/train_rate_learner.py", "rate_learning/data_utils.py"], [("transitions_to_datapoints", "pipeline/train_rate_learner.py"), ("standardize_beam_and_neighbors", "rate_learning/data_utils.py")], [], ["DataPoint"])

prop("C17", "Data augmentation respects the symmetry of the lattice",
 "Augmenting a rate-learning data set replaces each example by its full orbit under the three rotations (and, if requested, the reflection) of the silicon's neighbourhood, each orbit member once: position, rates and next state are transformed by the same symmetry (neighbour k lies at k times 120 degrees), state 0 stays 0, and time and context are unchanged. Synthetic prior data is generated with the same convention, so that its rates, positions and states are those of the prior at the stated position.",
 ["inputs"], "all positions, rates, states, contexts and data-set sizes, with and without reflection",
 "Tests check shapes and a few hand-picked rotations, not that position, rates and labels turn together.",
 ["rate_learning/data_utils.py"], [("get_transition_rotations, reflect_transition, augment_data, generate_synthetic_data", "rate_learning/data_utils.py")], [], ["augmented arrays"])

prop("C18", "Training and test data never share an example",
 "A random split partitions the examples into a test part of the requested fraction (rounded down) and a training part with nothing lost or duplicated; a bootstrap draws as many training examples as there are, with replacement, and tests on exactly the ones never drawn (several splits are cut to the shortest test part, and with a test fraction of zero and no bootstrap all data serve for both). All fields of an example stay together, and when splits are augmented this happens after splitting, so no symmetric copy of a test example is in the training set; each split is drawn independently and is a function of the key only.",
 ["inputs", "configurations"], "all data-set sizes, fractions, keys, numbers of splits, with and without bootstrap and augmentation",
 "Tests check sizes only.",
 ["rate_learning/data_utils.py", "rate_learning/learn_rates.py"], [("bootstrap_dataset, split_dataset", "rate_learning/data_utils.py"), ("create_dataset_splits", "rate_learning/learn_rates.py")], [], ["returned data sets"])

prop("C19", "Evaluation reports what actually happened, per seed",
 "Evaluating an agent runs one fresh episode per seed of the suite, in order, seeding the environment with it, and stops an episode at its end or when the simulated plus agent time reaches the timeout. Each result states exactly the number of actions taken, the summed reward, the simulated time including the initial observation, and whether the goal was reached (ended with discount 0, so neither a timeout nor a truncation counts); times are not-a-number when it was not. Aggregates over at least one result are the fraction of successful runs and the means over successful runs only (zero when none succeeded), and evaluation leaves no observer behind.",
 ["histories", "configurations"], "all seed suites, agents, episode lengths, ways of ending, timeouts, with and without video",
 "Tests use one scripted environment and do not combine timeouts, truncations and several seeds.",
 ["eval_lib.py"], [("evaluate, aggregate_results", "eval_lib.py")], [], ["EvalResult", "AggregateEvalResults"])

prop("C20", "The greedy agent aims at the neighbour that leads to the goal",
 "Given features with the three neighbour offsets and the goal offset, the greedy agent chooses the neighbour closest to the goal and returns the configured optimal beam offset plus the fixed offset, rotated so that positive x points at that neighbour, plus noise only if configured; hence its action turns with the scene and does not depend on the order of the neighbours. When the optimum is found by search between two scalar bounds it is the grid point maximising the transition function towards the first neighbour. The random agent samples uniformly within the given bounds.",
 ["inputs", "configurations"], "all neighbour configurations, orders, rotations, goal offsets, optimal offsets and transition functions",
 "Tests check one orientation.",
 ["agents/agent_lib.py"], [("GreedyAgent", "agents/agent_lib.py")], [], ["Agent.step"])

prop("C21", "Iterative alignment recovers drift and keeps bounded, unshared state",
 "Aligning a sequence of grids of the same lattice that drift between observations returns each grid moved into the frame of the first one, reports the shift that was applied with the sign that undoes it, and keeps at most the configured number of past observations; after a reset the result depends only on what was seen since. Aligning never modifies the arrays it is given, nor shares state between calls or aligners. Aligning a stored trajectory applies to each observation the accumulated shift up to and including it, and leaves controls, time, images and (unless relabelling is requested) grids untouched, label images included. A hybrid image aligner corrects the shift its model tells by what aligning the atoms finds, so that the atoms come out where the view before had them, and passes on what the model told when there is nothing to align, starting afresh from the next view.",
 ["histories", "inputs"], "all drift sequences below 0.45 angstroms per observation, lattices, history lengths, resets, step sizes and iteration counts",
 "Tests run random drifts through one aligner and compare the last result within a loose tolerance; they cannot see mutated inputs or state leaking between calls.",
 ["alignment.py", "pipeline/align_trajectories.py"], [("align_latest, IterativeAlignmentFiltering", "alignment.py"), ("do_alignment", "pipeline/align_trajectories.py")], [("recent_observations", "aligner memory", "IterativeAlignmentFiltering")], ["returned grids and drifts"])

prop("C22", "Re-framing an image to another field of view moves pixels with the scene",
 "Re-framing an image from one field of view to another returns an image of the same shape in which every pixel showing a point inside the old field of view carries the old image's value at that material point and every other pixel is zero: moving the field of view to the right moves the content left, moving it up moves the content down, a field of view that does not overlap gives an all-zero image, and the identity leaves the image unchanged; between whole-pixel moves, content is right to a pixel. The input image is not modified. The image aligner shows its model the current image and the ones before it, oldest first, all re-framed to the current view, with blank images where there are none yet or where an image has no contrast at all.",
 ["inputs"], "all whole-pixel shifts in both axes (beyond the image too), image shapes, channels and scale factors",
 "There is no test of the re-framing.",
 ["alignment.py"], [("pad_and_crop_images_by_fov", "alignment.py")], [], ["returned image"])

prop("C23", "Grid equality is a tolerant set comparison, consistent with hashing",
 "Two grids compare equal exactly when they have the same number of atoms and each atom of one has an atom of the same element within a thousandth of a unit in the other, in both directions and regardless of atom order; comparison is reflexive and symmetric, never raises for empty grids, and identical grids, in any atom order, have equal hashes. Shifting a grid translates all its atoms and nothing else.",
 ["inputs"], "all pairs of grids, including empty, permuted, perturbed below and above tolerance, with exchanged elements and with coincident atoms",
 "Tests compare a grid with itself and with two clearly different ones.",
 ["microscope_utils.py"], [("AtomicGrid.__eq__, __hash__, shift", "microscope_utils.py")], [], ["== and hash()"])

prop("C24", "Merging detections conserves atoms and averages positions",
 "Merging observations of the same atoms by proximity joins each detection to the nearest already known atom if it is closer than the cutoff and otherwise adds it as a new atom; each merged position is the mean of the detections joined to it and the counts add up to the number of detections, with inputs left unmodified. Clique merging of well separated clusters yields one atom per cluster at its mean with its size as the count. Element propagation gives every merged atom the element of an original atom whose closest merged atom it is, within the threshold, and the default otherwise.",
 ["inputs", "histories"], "all sequences of detection lists, cluster sizes, orders and cutoffs",
 "Merging is only exercised indirectly through the aligner.",
 ["alignment.py"], [("naive_merge, clique_merge, propagate_atomic_numbers", "alignment.py")], [], ["returned arrays"])

prop("C25", "The rendered video replays the recorded episode",
 "A video made from recorded simulator events has one frame per applied control and one final frame; each frame shows the material, silicon, field of view, beam position and image that were current when that control was applied (the final one: at the end), the goal at its material position, in both panels the same scene in their respective frames, and a clock equal to the dwell and imaging time recorded so far. The clock is written as minutes, seconds and hundredths, correctly rounded and always well formed.",
 ["histories", "inputs"], "all event sequences a simulator can record, with and without images, transitions, field-of-view moves and controls; all durations",
 "Tests only check that some animation is produced.",
 ["plotting_utils.py", "simulator_observers.py"], [("generate_video_from_simulator_events, format_timedelta", "plotting_utils.py")], [], ["animation frames", "plotted artists"])

prop("C26", "Rate functions respect the symmetry of the lattice",
 "Every built-in rate function offers exactly three successors, one per nearest neighbour of the silicon, each moving only the silicon there, with finite non-negative rates (for a mixture with a single peak, no larger than its maximum). Rates depend only on the scene's geometry: translating or rotating material and beam together, or reordering atoms, permutes the successors and their rates accordingly, the rate towards a neighbour peaks where the function places it relative to the line to that neighbour and falls off with the configured variances along and across that line, and mirroring or rotating the beam around the silicon by a lattice symmetry permutes the rates. Saving and loading a mixture gives an equal function, mixtures being equal when all their parameters agree to within a thousandth.",
 ["inputs", "configurations"], "all lattice orientations, beam positions, atom orders, mixture parameters",
 "Tests evaluate one grid orientation and a few beam positions.",
 ["graphene.py", "geometry.py"], [("PristineSingleSiGrRatePredictor, HumanPriorRatePredictor, simple_canonical_rate_function, GaussianMixtureRateFunction", "graphene.py")], [], ["Rates"])

prop("C27", "Learned rates are returned for the neighbours they were asked for",
 "A learned rate predictor returns, in the order in which the neighbours were given, the rates its network assigns to them, having put the scene in the canonical orientation (nearest neighbour to the beam along positive x, in angstroms as in the training data, current and voltage, where configured, before the position); permuting the neighbours permutes the rates and rotating the scene leaves them unchanged. Saving a trained predictor and loading it into a fresh one with the same configuration gives the same predictions, after further training too and for each of several steps saved in one folder, and a predictor whose inputs were fixed on export, or its exported model, predicts what the trained one does at those inputs.",
 ["inputs", "configurations"], "all scenes, neighbour orders, rotations, configurations (voltage and current used or not), and save/load histories",
 "Tests check the shape of one prediction.",
 ["rate_learning/learn_rates.py", "rate_learning/data_utils.py"], [("LearnedTransitionRatePredictor.predict, save, load", "rate_learning/learn_rates.py")], [], ["predict", "apply_model"])

prop("C28", "Experiment registration is consistent and instances are independent",
 "Every registered experiment can be looked up by its name and any other name is refused with a value error; registering an evaluation experiment under a new name makes it available without changing the others, and an existing name keeps its original experiment. Every call to an experiment's constructors yields fresh, independently stateful adapters, feature constructors, goals and simulators with the configured dwell times, distances, features, agents and rates, whose action and observation specs describe what an environment built from them really accepts and produces. An agent's published model is downloaded once, and a download that breaks off at any point is reported and never mistaken for the model later.",
 ["histories", "configurations", "crash_points"], "all experiment names and all sequences of lookups, registrations, constructions and (interrupted) downloads",
 "Tests look names up once; shared state between instances and spec mismatches go unnoticed.",
 ["experiments/registry.py", "experiments/experiments.py", "run_helpers.py"], [("create_*_experiment, register_eval_experiment", "experiments/registry.py")], [], ["constructors", "specs"])

prop("C29", "Rendered images and masks show each atom where it is",
 "A rendered clean image or mask is oriented so that an atom at microscope position (x, y) appears at column x times width and row (1 - y) times height: brightness peaks there, heavier elements are brighter, and the mask carries the atom's element number in a disc around it and zero elsewhere, whatever the field of view's size and position. Clean images are sums of equally wide round spots (standard deviation 1/2.15 angstroms in both directions) normalised to a maximum of one, and blank when nothing is in view; noisy images have the requested size and stay within [0, 1], and a row jitter only rotates rows.",
 ["inputs", "configurations"], "all grids, fields of view, image sizes, noise parameters and seeds",
 "Tests check shape and range of one image; transposed or flipped images pass.",
 ["imaging.py"], [("generate_clean_image, generate_grid_mask, generate_stem_image", "imaging.py")], [], ["returned arrays"])

prop("C30", "Detection maps segmented blobs back to atoms at their true positions",
 "Given a confident segmentation of a scene with well separated round atoms, detection returns exactly one atom per blob, with the right element, at the blob's centre in microscope coordinates ((0,0) bottom left) to within a pixel or two, ignoring atoms in the configured border; scenes with no carbon, no silicon or no atoms at all give correspondingly empty results rather than errors. The model is shown the whole picture the right way round, from 0 to 1, in single precision, whatever size, type and scale it comes in, with a channel axis or without; a picture without contrast is shown blank.",
 ["inputs"], "all scenes of separated atoms of either element, including empty ones, border widths, and picture types",
 "There is no test of detection.",
 ["alignment.py", "atom_detector.py"], [("process_detection_predictions, compute_centroids", "alignment.py"), ("AtomDetector.__call__, compute_centroids", "atom_detector.py")], [], ["AtomicGrid"])

prop("C31", "Features describe the observation, in the units agents were trained on",
 "The features given to an agent are, in the declared order, shape and type, the silicon's position, the offsets from it to its three nearest atoms (unit vectors in the microscope-frame variant, angstroms in the material-frame variant) and the offset from the silicon to the goal in angstroms; or, for the image variant, the observed image resized to the declared shape and that same goal offset. They refer throughout to one and the same silicon (the visible one nearest the centre of the view), do not depend on the order of atoms, and raise a silicon-not-found error when there is none.",
 ["inputs"], "all observations (any field of view, any number of silicon atoms, any atom order) and goals",
 "Tests check shapes and one observation.",
 ["feature_constructors.py", "graphene.py"], [("get_features", "feature_constructors.py")], [], ["features"])

prop("C32", "Training descends the likelihood of what was observed, example by example",
 "The loss of a batch of transitions is the mean over its examples of minus the log likelihood of what was observed under the network's rates for that same example's input: the waiting time is exponential with the total rate and the next state is drawn by the softmax, each term with its configured weight, whatever the shape of the arrays; an observation that the rates make impossible is costly but finite, and the returned rates are those of the states. An epoch shuffles the examples anew and takes one optimiser step per batch, at the parameters the previous step left, on the gradient of that batch's loss, using no example twice (a dataset smaller than a batch is one batch); metrics are those of the whole data at the end of each epoch, without training noise. Models trained together have their own data and start, and the same key gives the same result. Distillation measures the mean squared distance between the student's rates and the mean of its teachers' at the same random inputs, fresh in every batch and distributed like the data. A trained network's answer depends on its input alone.",
 ["inputs", "histories", "configurations"], "all datasets, batch sizes, epochs, weights, numbers of states and models, array shapes, networks and optimisers",
 "Tests check that training returns something; pairing, gradients, batches, metrics and distillation are unchecked.",
 ["rate_learning/learn_rates.py"], [("batched_loss_fn, train_epoch, train_model, train_multiple_models", "rate_learning/learn_rates.py"), ("distill_loss, distill_train_epoch, distill_multiple_models_to_single", "rate_learning/learn_rates.py"), ("get_mlp_fn", "rate_learning/learn_rates.py")], [], ["losses, gradients given to the optimiser, inputs given to the network, parameters, metrics"])

prop("C33", "The rate learning script delivers the models it was asked to train",
 "For every kind of learner and every choice of inputs (current, voltage or neither), bootstrapping, validation share, augmentation, batch size and ensemble size, the script trains on all usable transitions of the recorded trajectories (a file, or every file of a directory), with the hyper-parameters it was given and each member of a bootstrapped ensemble on a sample of its own, and leaves in its directory the models, metrics of every model and epoch, and pictures that were asked for. What it leaves can be loaded and answers like what was trained: an exported network as the trained one at the median context of the data, an ensemble of classifiers as the mean of its members (a state that a member never saw has probability zero), and the pictures show the saved model at the smallest, largest and median contexts, over the whole range, with the maxima of the rates reported. A picture of a transition, one per used transition and filed under its label, shows every atom, the beam and the silicon before and after where they were in the view before, and the neighbours in the order of the states, with the one the silicon moved to marked. Running it again in the same directory replaces the models, and the same data and seed give the same result, other seeds other samples.",
 ["configurations", "histories", "inputs"], "all script configurations and data files, and sequences of runs in the same directory",
 "The script has no test.",
 ["pipeline/train_rate_learner.py", "rate_learning/learn_rates.py"], [("main, get_sklearn_classifier, train_sklearn_classifier", "pipeline/train_rate_learner.py"), ("visualize_rates", "rate_learning/learn_rates.py")], [], ["files", "loaded models", "metrics"])

prop("C34", "A fetched model is complete or absent",
 "Fetching a model (the atom detector from a URL, the image aligner from an archive, agents of the registry) leaves in the model's place a complete model or what was there before, and never part of one or a mixture of two, whatever happens on the way: a missing, truncated or corrupt archive, a failing disk, a process that dies at any point, or another process fetching at the same time. A failed fetch raises and does not keep later fetches from succeeding; a model that is already there is used without asking for its archive again; asking to reload replaces it by exactly the new model; the model that is returned is the one in place, and a fetch that is not interrupted leaves nothing else behind.",
 ["crash points", "faults", "schedules", "histories"], "all sequences of fetches with failing sources, a failure, kill or suspension at any file operation, and overlapping fetches",
 "No test fetches the detector or the aligner; none injects faults.",
 ["atom_detector.py", "alignment.py", "experiments/registry.py"], [("AtomDetector.from_url", "atom_detector.py"), ("ImageAligner.from_path", "alignment.py"), ("_TfAgentCreator", "experiments/registry.py")], [], ["files in the model's place, exceptions"])

prop("C35", "The saved model is the best checkpoint, and the one that is loaded",
 "Saving a detection or alignment network writes, under the name asked for (or one with today's date) and nowhere else, an archive that the detector or the aligner can load and use, and whose outputs are those of the best evaluated checkpoint at that time (highest accuracy; lowest loss and drift error together), with the number of outputs of its configuration. An existing archive is replaced only when that was asked for and is kept, with an error, otherwise; saving changes neither the checkpoints, nor other archives, nor the working directory of the process, and works with relative paths.",
 ["histories", "configurations"], "all sequences of checkpoints (evaluated or not) and saves, names, relative or absolute paths, overwriting or not, network shapes and numbers of steps",
 "Saving has no test.",
 ["atom_detection/save_model.py", "image_alignment/save_model.py"], [("save", "atom_detection/save_model.py"), ("save", "image_alignment/save_model.py")], [], ["archives, outputs of loaded networks, working directory"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
