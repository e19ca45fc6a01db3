"""The registry of checks: which design modules, drivers and trace specs decide what."""


def Q(quick, thorough):
  return {'quick': quick, 'thorough': thorough}


SIM = dict(
    driver='sim', spec='SimTrace', shards=Q(6, 8),
    params=Q(dict(episodes=4, steps=14), dict(episodes=60, steps=30)))


def sim(corrupt):
  return dict(SIM, corrupt=corrupt)


NOTE = ('Exhaustive over the small design model; for the code, every recorded step of the sampled '
        'executions is decided against the specification. Executions are sampled (seeded), not '
        'exhaustive. Trusted: the drivers\' projection of objects to integers, TLC.')

NOT_APPLICABLE = {}

SIM_MC = dict(module='SimMC', cfg=Q('SimMC_q.cfg', 'SimMC_t.cfg'), workers=4, heap='8g',
              must_fire=['Hop', 'Over', 'ToldFov', 'Image', 'Gen', 'End', 'BeginReset', 'BeginStep'])

ENV_MC = dict(module='EnvMC', cfg=Q('EnvMC_q.cfg', 'EnvMC_t.cfg'), workers=4, must_fire=['Call'])
ENV_GEN = dict(name='env', module='EnvMC', cfg=Q('EnvGen_q.cfg', 'EnvGen_t.cfg'))
ENV = dict(driver='env', spec='EnvTrace', gen='env', shards=Q(6, 8))


def env(corrupt):
  return dict(ENV, corrupt=corrupt)


AGENT_MC = dict(module='AgentMC', cfg=Q('AgentMC_q.cfg', 'AgentMC_t.cfg'), workers=4,
                must_fire=['Reset', 'Step', 'Flush'])
AGENT_GEN = dict(name='agent', module='AgentMC', cfg=Q('AgentGen_q.cfg', 'AgentGen_t.cfg'))


def agent(corrupt, bare, logged):
  return dict(driver='agent', spec='AgentTrace', gen='agent', shards=Q(6, 8), corrupt=corrupt,
              params=Q(dict(bare=bare, logged=logged), dict(bare=1., logged=1.)))


CHECKS = {
    'C01': dict(
        mc=[SIM_MC],
        traces=[sim([('OTRANS', 'si', 5), ('OTRANS', 'moved', 3), ('OTRANS', 'nsi', 1),
                     ('End', 'si', 1), ('End', 'nother', 1), ('End', 'moved', 2),
                     ('RATE', 'si', 1), ('Begin', 'si', 1)])],
        must=['transition', 'multi_transition', 'fov_moved', 'reset']),
    'C02': dict(
        mc=[SIM_MC],
        traces=[sim([('OTRANS', 't', 100_000_000), ('RATE', 'p.0', 40), ('RATE', 'si', 1),
                     ('RATE', 'pos', 'drop')]),
                dict(driver='kmc', spec='KmcTrace', shards=Q(3, 8),
                     params=Q(dict(n=1200, reps=1), dict(n=4000, reps=12)),
                     corrupt=[('WAIT', 'cnt.0', 150), ('PAIR', 'c', 150), ('COUNT', 'cnt.1', 150),
                              ('PICK', 'cnt.0', 300), ('NEVER', 'c', 1)])],
        must=['transition', 'multi_transition', 'WAIT', 'PICK', 'COUNT', 'NEVER'],
        note=NOTE + ' Distributions: z = 6 bounds on counts of dyadic events.'),
    'C03': dict(
        mc=[SIM_MC],
        traces=[sim([('End', 'elapsed', 1), ('End', 'ctrls', 'drop'), ('End', 'ctrls', 'dup'),
                     ('End', 'ctrls.0.dwell', 1), ('End', 'ctrls.0.u.0', 500),
                     ('End', 'ctrls.0.kv', 1000)]),
                env([('Call', 'ts.d', 50)])],
        gen=[ENV_GEN],
        must=['fov_moved', 'fov_kept', 'reset', 'no_control', 'many_controls', 'fresh_step']),
    'C06': dict(
        mc=[ENV_MC], gen=[ENV_GEN],
        traces=[env([('Call', 'ts.t', 1), ('Call', 'ts.r', 50), ('Call', 'ts.d', -3000),
                     ('Call', 'ts.f', 1), ('Call', 'comps', 'drop'), ('Call', 'comps', 'dup'),
                     ('Call', 'comps.0.obs', 1), ('Call', 'raised', 'flip')])],
        must=['fresh_step', 'step_after_end', 'reset_mid_episode', 'terminated',
              'truncated_by_goal', 'failed_reset']),
    'C07': dict(
        mc=[ENV_MC], gen=[ENV_GEN],
        traces=[env([('WCall', 'ts.t', 1), ('WCall', 'ts.r', 50), ('WCall', 'ts.d', 50),
                     ('WCall', 'ts.f', 1), ('WCall', 'inner', 'drop'), ('WCall', 'inner.0.k', 'str'),
                     ('WCall', 'inner.0.act', 1)])],
        must=['w_truncated', 'w_after_truncation', 'w_reset_after_truncation', 'w_no_limit',
              'w_inner_end_at_limit', 'w_inner_end_before_limit', 'w_attr']),
    'C04': dict(
        mc=[SIM_MC],
        traces=[sim([('End', 'fov.0', 60), ('End', 'fov.3', 60), ('End', 'atoms', 'drop'),
                     ('End', 'atoms', 'dup'), ('End', 'atoms.0.u', 400),
                     ('End', 'atoms.0.z', 1), ('End', 'atoms.0.w', 1)])],
        must=['fov_moved', 'fov_kept', 'reset', 'second_reset']),
    'C05': dict(
        mc=[SIM_MC],
        traces=[sim([('OCTRL', 'dwell', 1), ('OCTRL', 'p.0', 40), ('OCTRL', 'kv', 1000),
                     ('OIMG', 'dur', 1), ('OIMG', 'fov.1', 20), ('OFOV', 'fov.0', 1000),
                     ('End', 'seen.0.digs', 'drop'), ('End', 'evlog', 'drop'),
                     ('End', 'dig', 1), ('End', 'hasimg', 'flip')])],
        must=['transition', 'fov_moved', 'image', 'many_controls', 'observer_added',
              'observer_removed', 'beam_params']),
    'C13': dict(
        mc=[AGENT_MC], gen=[AGENT_GEN],
        traces=[agent([('Step', 'ts.t', 1), ('Step', 'ts.r', 50), ('Step', 'ts.f', 1),
                       ('Step', 'back', 'drop'), ('Step', 'back.0.p.0', 100), ('Step', 'comps', 'drop'),
                       ('Step', 'comps', 'dup'), ('Step', 'comps.0.obs', 1), ('Reset', 'comps', 'drop'),
                       ('Reset', 'comps', 'dup'), ('Step', 'raised', 'flip')], 1., .2)],
        must=['no_silicon_first', 'no_silicon_later', 'first', 'first_terminal', 'terminal',
              'truncated', 'pending_first', 'reset_mid_episode']),
    'C14': dict(
        mc=[AGENT_MC], gen=[AGENT_GEN],
        traces=[agent([('Flush', 'disk.steps', 'drop'), ('Exit', 'disk.steps', 'swap'),
                       ('Exit', 'disk.eps', 'dup'), ('Exit', 'disk.trajs', 'drop'),
                       ('Exit', 'disk.eps.0.ret', 1000), ('Exit', 'disk.eps.0.goal', 1),
                       ('Exit', 'disk.steps.0.ep', 1), ('Exit', 'exc', 'flip')], 0., 1.)],
        must=['no_silicon_first', 'no_silicon_later', 'terminal', 'second_flush', 'flush_mid_episode',
              'flush_empty', 'reset_without_steps', 'exit', 'exit_exception']),
    'C09': dict(
        mc=[dict(module='FramesMC', cfg=Q('FramesMC_q.cfg', 'FramesMC_t.cfg'), workers=4,
                 must_fire=['Do'])],
        gen=[dict(name='frames', module='FramesMC', cfg=Q('FramesGen_q.cfg', 'FramesGen_t.cfg'))],
        traces=[dict(driver='frames', spec='FramesTrace', gen='frames', shards=Q(4, 8),
                     params=Q(dict(reps=2), dict(reps=4)),
                     corrupt=[('Conv', 'out.0.0', 60), ('Conv', 'back.0.1', 60), ('Conv', 'carried', 'flip'),
                              ('Conv', 'shape', 'flip'), ('Op', 'fov.2', 100), ('Op', 'size.0', 50),
                              ('Op', 'mid.1', 50), ('Bounds', 'out', 'drop'), ('Bounds', 'out', 'swap'),
                              ('Shift', 'out.0.0', 50)])],
        must=['point_mat', 'point_mic', 'array1_mat', 'array_mic', 'grid_mat', 'grid_mic', 'control_mat',
              'control_mic', 'non_square', 'empty_grid', 'outside', 'shift', 'zoom', 'resize',
              'bounds_negative', 'bounds_positive', 'bounds_edge', 'bounds_some_outside', 'shift_grid',
              'shift_control']),
    'C10': dict(
        mc=[dict(module='AdaptersMC', cfg=Q('AdaptersMC_q.cfg', 'AdaptersMC_t.cfg'), workers=4,
                 must_fire=['Reset', 'Move'])],
        gen=[dict(name='adapters', module='AdaptersMC', cfg=Q('AdaptersGen_q.cfg', 'AdaptersGen_t.cfg'))],
        traces=[dict(driver='adapters', spec='AdaptersTrace', gen='adapters', shards=Q(4, 8),
                     corrupt=[('Act', 'out.0.p.0', 60), ('Act', 'out.0.dwell', 100), ('Act', 'out', 'dup'),
                              ('Act', 'kept', 'flip'), ('Act', 'raised', 'flip'), ('Spec', 'low.0', 1000),
                              ('Spec', 'shape.0', 1), ('Starts', 'cnt.0', 600)])],
        must=['starts', 'direct', 'delta', 'unit', 'material', 'not_one_silicon', 'non_square', 'interpolated',
              'dwell_clipped', 'direct_edge', 'delta_edge', 'unit_edge', 'material_edge', 'unit_clipped',
              'delta_moves', 'second_start', 'start_low1', 'start_low2', 'start_high1', 'start_high2', 'spec_direct', 'spec_delta', 'spec_unit', 'spec_material']),
    'C08': dict(
        mc=[dict(module='GoalsMC', cfg=Q('GoalsMC_q.cfg', 'GoalsMC_t.cfg'), workers=4,
                 must_fire=['Reset', 'Hop', 'View', 'Blind'])],
        gen=[dict(name='goals', module='GoalsMC', cfg=Q('GoalsGen_q.cfg', 'GoalsGen_t.cfg'))],
        traces=[dict(driver='goals', spec='GoalsTrace', gen='goals', shards=Q(4, 8),
                     params=Q(dict(reps=6, picks=.1), dict(reps=12, picks=.3)),
                     corrupt=[('GReset', 'pos.0', 200), ('Judge', 'term', 'flip'), ('Judge', 'trunc', 'flip'),
                              ('Judge', 'reward', 100), ('Judge', 'pos.1', 10), ('Judge', 'outcome', 'str'),
                              ('GReset', 'outcome', 'str'), ('Picks', 'picks', 'drop')])],
        must=['no_silicon', 'no_candidates', 'many_silicons', 'non_square', 'some_excluded', 'second_goal',
              'terminal', 'not_terminal', 'judge_N', 'judge_E', 'judge_V', 'judge_0', 'just_inside',
              'just_outside', 'several_candidates']),
    'C31': dict(
        mc=[dict(module='FeaturesMC', cfg=Q('FeaturesMC_q.cfg', 'FeaturesMC_t.cfg'), workers=4,
                 must_fire=['Edit', 'View', 'Dope', 'Lose'])],
        gen=[dict(name='features', module='FeaturesMC', cfg=Q('FeaturesGen_q.cfg', 'FeaturesGen_t.cfg'))],
        traces=[dict(driver='features', spec='FeaturesTrace', gen='features', shards=Q(4, 8),
                     corrupt=[('Feat', 'delta.0', 200), ('Feat', 'si.0', 200), ('Feat', 'offs.0.0', 40000),
                              ('Feat', 'offs', 'swap'), ('Feat', 'conform', 'flip'), ('Feat', 'kept', 'flip'),
                              ('Feat', 'outcome', 'str'), ('Feat', 'blocks.0', 20000)])],
        must=['unit', 'material', 'image', 'unit_no_silicon', 'material_no_silicon', 'image_no_silicon',
              'unit_many_silicons', 'material_many_silicons', 'image_many_silicons', 'silicon_not_first',
              'non_square', 'metric_matters']),
    'C12': dict(
        mc=[dict(module='ProtoMC', cfg=Q('ProtoMC_q.cfg', 'ProtoMC_t.cfg'), workers=4,
                 must_fire=['Put', 'Write', 'ReadBack'])],
        gen=[dict(name='proto', module='ProtoMC', cfg=Q('ProtoGen_q.cfg', 'ProtoGen_t.cfg'))],
        traces=[dict(driver='proto', spec='ProtoTrace', gen='proto', shards=Q(4, 8),
                     params=Q(dict(reps=12), dict(reps=200)),
                     corrupt=[('Trip', 'kept', 'flip'), ('Trip', 'raised', 'flip'), ('Read', 'items', 'drop'),
                              ('Read', 'items', 'dup'), ('Read', 'items', 'swap'), ('Trip', 'msg.image0', 'str'),
                              ('Trip', 'bytes.label1', 'str'), ('Trip', 'msg.fov0.0', 50), ('Trip', 'msg.t', 900),
                              ('Trip', 'bytes.grid', 'drop'), ('Trip', 'bytes.controls', 'dup'),
                              ('Trip', 'msg.d.0', 50), ('Trip', 'msg.kv', 'drop'), ('Read', 'raised', 'flip')])],
        must=['grid', 'control', 'fov', 'obs', 'tr', 'traj', 'drift', 'lab', 'label_without_image',
              'image_without_label', 'no_voltage', 'no_current', 'empty_grid', 'empty_trajectory', 'write',
              'overwrite', 'bad_write', 'bad_read', 'typed', 'raw']),
    'C15': dict(
        mc=[dict(module='PairsMC', cfg=Q('PairsMC_q.cfg', 'PairsMC_t.cfg'), workers=4,
                 must_fire=['Begin', 'Obs'])],
        gen=[dict(name='pairs', module='PairsMC', cfg=Q('PairsGen_q.cfg', 'PairsGen_t.cfg'))],
        traces=[dict(driver='pairs', spec='PairsTrace', gen='pairs', shards=Q(3, 8),
                     params=Q(dict(reps=60), dict(reps=400)),
                     corrupt=[('Extract', 'out', 'drop'), ('Extract', 'out', 'dup'), ('Extract', 'out', 'swap'),
                              ('Extract', 'out.0.g1', 1), ('Extract', 'out.0.f0', 1), ('Extract', 'out.0.c', 1),
                              ('Extract', 'out.0.i0', 1), ('Extract', 'out.0.l1', 1), ('Extract', 'raised', 'flip'),
                              ('Extract', 'kept', 'flip'), ('Load', 'out', 'drop'), ('Load', 'raised', 'flip')])],
        must=['direct', 'script', 'previous_controls', 'own_controls', 'no_trajectory', 'empty_trajectory',
              'single_observation', 'long_trajectory', 'several_trajectories', 'image_lost', 'image_gained',
              'label_lost', 'load_file', 'load_files', 'load_dir']),
    'C16': dict(
        mc=[dict(module='LabelsMC', cfg=Q('LabelsMC_q.cfg', 'LabelsMC_t.cfg'), workers=4,
                 must_fire=['Check'])],
        gen=[dict(name='labels', module='LabelsMC', cfg=Q('LabelsGen_q.cfg', 'LabelsGen_t.cfg'))],
        traces=[dict(driver='labels', spec='LabelsTrace', gen='labels', shards=Q(4, 8),
                     params=Q(dict(reps=60), dict(reps=600)),
                     corrupt=[('Batch', 'out', 'drop'), ('Batch', 'out', 'dup'), ('Batch', 'out.0.state', 1),
                              ('Batch', 'out.0.pos.0', 150), ('Batch', 'out.0.pos.1', 150), ('Batch', 'out.0.dwell', 1),
                              ('Batch', 'out.0.kv', 'drop'), ('Batch', 'out.0.na', 'dup'), ('Batch', 'raised', 'flip'),
                              ('Batch', 'kept', 'flip'), ('Stack', 'rows', 'drop'), ('Stack', 'rows.0.ctx', 'drop'),
                              ('Stack', 'rows.0.state', 1)])],
        must=['label0', 'label1', 'label2', 'label3', 'controls', 'silicons', 'few_atoms', 'not_threefold', 'moved_far',
              'mismatch', 'use_may', 'view_moved', 'silicon_not_first', 'no_transitions', 'stack', 'no_context',
              'both_contexts', 'strict_used', 'strict_mismatch', 'days']),
    'C17': dict(
        mc=[dict(module='OrbitsMC', cfg=Q('OrbitsMC_q.cfg', 'OrbitsMC_t.cfg'), workers=4,
                 must_fire=['Take', 'Augment'])],
        gen=[dict(name='orbits', module='OrbitsMC', cfg=Q('OrbitsGen_q.cfg', 'OrbitsGen_t.cfg'))],
        traces=[dict(driver='orbits', spec='OrbitsTrace', gen='orbits', shards=Q(4, 8),
                     params=Q(dict(reps=2), dict(reps=10)),
                     corrupt=[('Augment', 'out', 'drop'), ('Augment', 'out', 'dup'), ('Augment', 'out.0.state', 1),
                              ('Augment', 'out.1.rates.0', 20), ('Augment', 'out.1.pos.1', 100), ('Augment', 'out.1.dt', 1),
                              ('Augment', 'out.1.ctx', 'dup'), ('Augment', 'raised', 'flip'), ('Augment', 'kept', 'flip'),
                              ('Synthetic', 'rows.0.rates.1', 5000), ('Synthetic', 'rows.0.state', 4),
                              ('States', 'cnt.1', 90), ('Synthetic', 'again', 'flip')])],
        must=['fold3', 'reflected', 'not_reflected', 'no_context', 'stayed', 'on_axis', 'column', 'flat', 'state1',
              'state2', 'state3', 'synthetic', 'states']),
    'C18': dict(
        mc=[dict(module='SplitsMC', cfg=Q('SplitsMC_q.cfg', 'SplitsMC_t.cfg'), workers=4,
                 must_fire=['Draw', 'Finish'])],
        gen=[dict(name='splits', module='SplitsMC', cfg=Q('SplitsGen_q.cfg', 'SplitsGen_t.cfg'))],
        traces=[dict(driver='splits', spec='SplitsTrace', gen='splits', shards=Q(4, 8),
                     params=Q(dict(reps=3), dict(reps=20)),
                     corrupt=[('Split', 'train', 'drop'), ('Split', 'test', 'dup'), ('Split', 'train.0.2', 1),
                              ('Split', 'again', 'flip'), ('Boot', 'train', 'drop'), ('Boot', 'test', 'drop'),
                              ('Boot', 'test', 'dup'), ('Boot', 'train.0.1', 1), ('Boot', 'raised', 'flip'),
                              ('Many', 'trains.0', 'drop'), ('Many', 'tests.0', 'dup'), ('Many', 'trains', 'drop'),
                              ('Many', 'trains.0.0.3', 1), ('Many', 'again', 'flip'), ('Boot', 'kept', 'flip'),
                              ('Fair', 'cnt.0', 90)])],
        must=['split', 'no_test_examples', 'boot', 'nothing_left', 'many_none', 'many_boot', 'many_split', 'augmented',
              'not_augmented', 'test_cut', 'fair']),
    'C19': dict(
        mc=[dict(module='EvalMC', cfg=Q('EvalMC_q.cfg', 'EvalMC_t.cfg'), workers=4,
                 must_fire=['Begin', 'Step', 'Close'])],
        gen=[dict(name='eval', module='EvalMC', cfg=Q('EvalGen_q.cfg', 'EvalGen_t.cfg'))],
        traces=[dict(driver='evals', spec='EvalTrace', gen='eval', shards=Q(4, 8),
                     params=Q(dict(reps=6), dict(reps=60)),
                     corrupt=[('End', 'results.0.n', 1), ('End', 'results.0.tot', 500), ('End', 'results.0.env', 100),
                              ('End', 'results.0.ag', 100), ('End', 'results.0.reached', 'flip'), ('End', 'results', 'drop'),
                              ('End', 'results', 'dup'), ('End', 'obsv', 'dup'), ('End', 'raised', 'flip'), ('Seed', 's', 1),
                              ('Act', 'ts', 1), ('EStep', 'act', 1), ('Mode', 'mode', 'str'), ('Agg', 'frac', 900),
                              ('Agg', 'acts', 50), ('Agg', 'ag', 50), ('Agg', 'env', 50), ('Agg', 'rew', 50),
                              ('Agg', 'both', 50), ('EStep', 'last', 'flip')])],
        must=['episode_ended', 'episode_truncated', 'episode_timed_out', 'timed_out_by_agent', 'exactly_at_timeout',
              'no_action', 'raised', 'raised_with_video', 'video', 'no_seeds', 'real', 'other_observer', 'agg_none',
              'agg_some', 'agg_all']),
    'C20': dict(
        mc=[dict(module='GreedyMC', cfg=Q('GreedyMC_q.cfg', 'GreedyMC_t.cfg'), workers=4, must_fire=['Act'])],
        gen=[dict(name='greedy', module='GreedyMC', cfg=Q('GreedyGen_q.cfg', 'GreedyGen_t.cfg'))],
        traces=[dict(driver='greedy', spec='GreedyTrace', gen='greedy', shards=Q(3, 8),
                     params=Q(dict(reps=6), dict(reps=40)),
                     corrupt=[('Greedy', 'act.0', 60), ('Greedy', 'act.1', 60), ('Greedy', 'p.0', 60), ('Greedy', 'raised', 'flip'),
                              ('Greedy', 'kept', 'flip'), ('Find', 'best.0', 500), ('Find', 'raised', 'flip'),
                              ('Noise', 'x.0', 150), ('Noise', 'quad.0', 150), ('Noise', 'again', 'flip'),
                              ('Random', 'cnt.0.0', 150), ('Random', 'inside', 'flip'), ('Make', 'refused', 'flip')])],
        must=['given', 'turned', 'default', 'best1', 'best2', 'best3', 'fixed_offset', 'find', 'noise', 'random',
              'per_component_bounds', 'refused'],
        note=NOTE + ' Distributions: z = 6 bounds on counts.'),
    'C11': dict(
        mc=[dict(module='ReproMC', cfg=Q('ReproMC_q.cfg', 'ReproMC_t.cfg'), workers=4, heap='8g',
                 must_fire=['Seed', 'Reset', 'Step', 'Other', 'Watch', 'Caught'])],
        gen=[dict(name='repro', module='ReproMC', cfg=Q('ReproGen_q.cfg', 'ReproGen_t.cfg'))],
        traces=[dict(driver='repro', spec='ReproTrace', gen='repro', shards=Q(7, 7),
                     params=Q(dict(n=70), dict(n=1200)),
                     corrupt=[('Again', 'dig', 1)])],
        must=['again_env_unit', 'again_env_prior', 'again_env_gmm', 'again_env_delta', 'again_env_image', 'again_sim',
              'again_material', 'again_goal', 'again_adapter', 'again_agent_random', 'again_agent_greedy',
              'again_microscope', 'again_image', 'again_image_noisy', 'again_mixture', 'again_long', 'second_reset',
              'other_numpy', 'other_python', 'other_env', 'other_generator', 'other_observer', 'not_claimed']),
    'C21': dict(
        mc=[dict(module='AlignMC', cfg=Q('AlignMC_q.cfg', 'AlignMC_t.cfg'), workers=4, heap='8g',
                 must_fire=['Observe', 'ResetOp', 'MoveOp', 'LostOp'])],
        gen=[dict(name='align', module='AlignMC', cfg=Q('AlignGen_q.cfg', 'AlignGen_t.cfg'))],
        traces=[dict(driver='align', spec='AlignTrace', gen='align', shards=Q(6, 7),
                     params=Q(dict(n=12, small=36), dict(n=300, small=600)),
                     corrupt=[('Obs', 'shift.0', 900), ('Obs', 'out.0.1', 1500), ('Obs', 'kept', 1), ('Latest', 'shift.1', 900), ('Lost', 'shift.0', 9),
                              ('Traj', 'out.0.2', 500)])],
        must=['first', 'forgets', 'clipped', 'remembered_site', 'doped', 'reset', 'moved', 'latest_absent', 'latest_given',
              'latest_none', 'latest_given_int', 'classes', 'scale', 'traj_stub', 'traj_directory', 'traj_file', 'passes', 'relabel',
              'obs_clique', 'obs_naive', 'obs_hybrid', 'hybrid_clipped', 'outliers', 'lost_first', 'lost_later']),
    'C23': dict(
        mc=[dict(module='GridsMC', cfg=Q('GridsMC_q.cfg', 'GridsMC_t.cfg'), workers=4, heap='8g',
                 must_fire=['AddA', 'AddB'])],
        gen=[dict(name='grids', module='GridsMC', cfg=Q('GridsGen_q.cfg', 'GridsGen_t.cfg'))],
        traces=[dict(driver='grids', spec='GridsTrace', gen='grids', shards=Q(4, 7),
                     params=Q(dict(n=3000, lattices=40, shifts=60), dict(n=30000, lattices=1000, shifts=2000)),
                     corrupt=[('Eq', 'ab', 'flip'), ('Hash', 'hs.0', 1), ('Shift', 'out.0.0', 50)])],
        must=['equal', 'different', 'empty', 'one_sided', 'coincident', 'element_only', 'big', 'hash', 'shift', 'shift_empty']),
    'C22': dict(
        mc=[dict(module='ReframeMC', cfg=Q('ReframeMC_q.cfg', 'ReframeMC_t.cfg'), workers=4, heap='8g',
                 must_fire=['Move'])],
        gen=[dict(name='walk', module='ReframeMC', cfg=Q('ReframeGen_q.cfg', 'ReframeGen_t.cfg'))],
        traces=[dict(driver='reframe', spec='ReframeTrace', gen='walk', shards=Q(4, 7),
                     params=Q(dict(n=40, odd=60, stacks=3), dict(n=400, odd=1500, stacks=20)),
                     corrupt=[('Reframe', 'out.0.3.4', 40), ('Stack', 'stack.0.4.7', 5), ('Stack', 'drift.0', 3), ('Reframe', 'kept', 'flip')])],
        must=['exact', 'between_pixels', 'identity', 'disjoint', 'zoom_in', 'zoom_out', 'right', 'up', 'down', 'oblong', 'channels',
              'oblong_view', 'stack', 'stack_full', 'stack_blank', 'stack_zoom', 'stack_flat', 'reset']),
    'C24': dict(
        mc=[dict(module='MergeMC', cfg=Q('MergeMC_q.cfg', 'MergeMC_t.cfg'), workers=4, heap='8g',
                 must_fire=['Detect', 'NextObs'])],
        gen=[dict(name='merge', module='MergeMC', cfg=Q('MergeGen_q.cfg', 'MergeGen_t.cfg'))],
        traces=[dict(driver='merge', spec='MergeTrace', gen='merge', shards=Q(4, 7),
                     params=Q(dict(n=400, random=1200), dict(n=3000, random=20000)),
                     corrupt=[('Naive', 'out.0.0', 40), ('Naive', 'out.0.2', 1), ('Clique', 'kept', 'flip'), ('Spread', 'out.0', 50),
                              ('Naive', 'kept', 'flip')])],
        must=['naive', 'joined', 'added_later', 'empty_view', 'two_join_one', 'clique', 'chain', 'weighted', 'alone', 'spread', 'given_start',
              'too_far', 'contested']),
    'C25': dict(
        mc=[dict(module='VideoMC', cfg=Q('VideoMC_q.cfg', 'VideoMC_t.cfg'), workers=4, heap='8g',
                 must_fire=['Control', 'Transition', 'Image', 'Generated'])],
        gen=[dict(name='video', module='VideoMC', cfg=Q('VideoGen_q.cfg', 'VideoGen_t.cfg'))],
        traces=[dict(driver='video', spec='VideoTrace', gen='video', shards=Q(5, 7),
                     params=Q(dict(n=24, episodes=10, clocks=120), dict(n=400, episodes=140, clocks=5000)),
                     corrupt=[('Show', 'frames.0.mat.cs.0.0', 20), ('Show', 'frames.0.mic.sis.0.1', 200), ('Show', 'frames.0.hh', 1),
                              ('Show', 'frames.0.img', 1), ('Clock', 'ss', 1)])],
        must=['show_synthetic', 'show_episode', 'no_controls', 'no_image', 'several_controls', 'image_changes', 'view_changes',
              'grid_changes', 'clock', 'carry', 'hours']),
    'C26': dict(
        mc=[dict(module='RatesMC', cfg=Q('RatesMC_q.cfg', 'RatesMC_t.cfg'), workers=4, must_fire=['Shuffle', 'Turn'])],
        gen=[dict(name='rates', module='RatesMC', cfg=Q('RatesGen_q.cfg', 'RatesGen_t.cfg'))],
        traces=[dict(driver='rates', spec='RatesTrace', gen='rates', shards=Q(5, 7),
                     params=Q(dict(n=25, equal=60), dict(n=600, equal=3000)),
                     corrupt=[('Ask', 'succ.0.0', 1), ('Ask', 'succ.1.3', 1), ('Ask', 'rate.2', 700), ('Ask', 'total', 900),
                              ('Load', 'p.w.0', 10), ('Equal', 'eq', 'flip'), ('Draw', 'p.loc.0', 6000000)])],
        must=['ask_simple', 'ask_prior', 'ask_mixture', 'ask_custom', 'ask_mixture_of_several', 'again', 'off_axis', 'oblong', 'at_the_peak', 'far',
              'scene_turn', 'scene_shift', 'scene_mirror', 'scene_shuffle', 'scene_hop', 'scene_aim', 'scene_peak',
              'loaded', 'nothing_saved', 'several_saved', 'overwritten', 'equal', 'unequal', 'drawn']),
    'C27': dict(
        mc=[dict(module='LearnedMC', cfg=Q('LearnedMC_q.cfg', 'LearnedMC_t.cfg'), workers=4,
                 must_fire=['Change', 'Save', 'Load', 'Predict'])]
        + [dict(module='LearnedMC', cfg=f'LearnedMC_{f}.cfg', refutes='NeverNoticed') for f in ('stale', 'state', 'order', 'shared')],
        gen=[dict(name='learned', module='LearnedMC', cfg=Q('LearnedGen_q.cfg', 'LearnedGen_t.cfg'))],
        traces=[dict(driver='learned', spec='LearnedTrace', gen='learned', shards=Q(6, 7),
                     params=Q(dict(n=2), dict(n=30)),
                     corrupt=[('Predict', 'got.0', 30000), ('Predict', 'ctx.0', 300), ('Net', 'ens.1', 30000), ('Net', 'rel.0.2', 30000),
                              ('Export', 'got.0', 20000), ('Load', 'raised', 'flip')])],
        must=['predict', 'remembered', 'reordered', 'fixed_inputs', 'explicit_inputs', 'inputs_2', 'inputs_3', 'inputs_4', 'moved_on',
              'ensemble', 'single', 'loaded', 'nothing_saved', 'Train', 'Distill', 'changed_after_packaging', 'overwritten', 'exported', 'older_step']),
    'C29': dict(
        mc=[dict(module='ImagingMC', cfg=Q('ImagingMC_q.cfg', 'ImagingMC_t.cfg'), workers=4, must_fire=['AddAtom', 'Remove', 'Move', 'Zoom'])]
        + [dict(module='ImagingMC', cfg=f'ImagingMC_{f}.cfg', refutes='Accepted') for f in ('pan', 'unflipped', 'mirrored', 'transposed')],
        gen=[dict(name='imaging', module='ImagingMC', cfg=Q('ImagingGen_q.cfg', 'ImagingGen_t.cfg'))],
        traces=[dict(driver='imaging', spec='ImagingTrace', gen='imaging', shards=Q(5, 7),
                     params=Q(dict(n=20, steps=300), dict(n=400, steps=8000)),
                     corrupt=[('Mask', 'img.0.0', 7), ('Clean', 'img.2.3', 250), ('Noisy', 'hi', 20000), ('Noisy', 'again', 'flip'), ('Step', 'out.0.0', 20000)])],
        must=['mask', 'clean', 'noisy', 'nothing_in_view', 'out_of_view', 'both_elements', 'oblong_mask', 'mask_of_oblong_view', 'oblong_view',
              'border', 'uneven_border', 'seen_from_border', 'noise_of_nothing', 'changed', 'blank', 'step_jitter', 'step_pepper', 'step_poisson',
              'step_contrast', 'step_blur', 'step_uniform', 'step_exponential', 'step_gaussian']),
    'C30': dict(
        mc=[dict(module='DetectMC', cfg=Q('DetectMC_q.cfg', 'DetectMC_t.cfg'), workers=4, must_fire=['Paint', 'Clean', 'Fresh'])]
        + [dict(module='DetectMC', cfg=f'DetectMC_{f}.cfg', refutes='Accepted') for f in ('swapped', 'corner', 'upside_down', 'double', 'no_border')],
        gen=[dict(name='detect', module='DetectMC', cfg=Q('DetectGen_q.cfg', 'DetectGen_t.cfg'))],
        traces=[dict(driver='detect', spec='DetectTrace', gen='detect', shards=Q(5, 7),
                     params=Q(dict(n=30), dict(n=500)),
                     corrupt=[('Find', 'out.0.0', 8), ('Find', 'out.0.1', 500), ('Find', 'out.0.2', 500), ('Find', 'seen', 'flip'), ('Find', 'kept', 'flip')])],
        must=['aligner', 'mask', 'detector', 'call', 'empty', 'only_carbon', 'only_silicon', 'both', 'oblong', 'some_in_border', 'several_silicon',
              'flat_2d', 'flat_3d', 'single_3d', 'double_2d', 'double_3d', 'whole_2d', 'whole_3d']),
    'C28': dict(
        mc=[dict(module='RegistryMC', cfg=Q('RegistryMC_q.cfg', 'RegistryMC_t.cfg'), workers=4,
                 must_fire=['Look', 'Add', 'Make', 'Open', 'Advance', 'Fetch'])]
        + [dict(module='RegistryMC', cfg=f'RegistryMC_{f}.cfg', refutes='Accepted') for f in ('overwrite', 'cached', 'alias', 'in_place')],
        gen=[dict(name='registry', module='RegistryMC', cfg=Q('RegistryGen_q.cfg', 'RegistryGen_t.cfg'))],
        traces=[dict(driver='registry', spec='RegistryTrace', gen='registry', shards=Q(5, 7),
                     params=Q(dict(n=14, long=2), dict(n=300, long=3)),
                     corrupt=[('Lookup', 'exp', 1000), ('Build', 'lo', 100), ('Build', 'ids.1', -1), ('Build', 'acts', 1), ('Advance', 'digest', 1),
                              ('Advance', 'obs', 'flip'), ('Agent', 'n', 1), ('Agent', 'raised', 'flip')])],
        must=['known', 'unknown', 'of_another_kind', 'own', 'looked_up_again', 'added', 'taken', 'own_taken', 'microscope', 'train', 'eval',
              'build_relative', 'build_material', 'build_direct', 'see_graphene', 'see_material', 'see_image', 'rates_simple', 'rates_prior', 'timed',
              'advance', 'same_run_again', 'fetch_none', 'fetch_download', 'fetch_extract', 'on_disk', 'greedy', 'random', 'timed_agent']),
    'C32': dict(
        mc=[dict(module='TrainingMC', cfg=Q('TrainingMC_q.cfg', 'TrainingMC_t.cfg'), workers=4, must_fire=['Draw', 'Step', 'EndEpoch', 'Finish'])]
        + [dict(module='TrainingMC', cfg=f'TrainingMC_{f}.cfg', refutes='Accepted')
           for f in ('overlap', 'crossed', 'stale', 'summed', 'early_metrics', 'noisy_metrics')],
        gen=[dict(name='training', module='TrainingMC', cfg=Q('TrainingGen_q.cfg', 'TrainingGen_t.cfg'))],
        traces=[dict(driver='training', spec='TrainingTrace', gen='training', shards=Q(6, 7),
                     params=Q(dict(n=dict(loss=16, fit=4, distill=3, real=2), learn=1), dict(n=dict(loss=60, fit=60, distill=40, real=4), learn=3)),
                     corrupt=[('Loss', 'loss', 4000), ('Loss', 'cl.0', 4000), ('Loss', 'rates.0.0', 400), ('Fit', 'grads.0.0', 4000), ('Fit', 'at.0.0', 1),
                              ('Fit', 'th.0', 1), ('Fit', 'seen.0', 1), ('Fit', 'again', 'flip'), ('Distill', 'loss.0', 5000),
                              ('Eval', 'one.0.0', 2000), ('Learn', 'last', 10000000)])],
        must=['loss', 'column', 'weighted', 'one_example', 'no_transition', 'no_time', 'impossible', 'states_2', 'states_3', 'states_4', 'epoch', 'model',
              'models', 'column_fit', 'small_data', 'left_over', 'several_batches', 'several_epochs', 'parameters_moved', 'distill_loss', 'distill_epoch',
              'distill_many', 'ensemble', 'alone', 'same_as_teacher', 'flat_direction', 'eval', 'dropout', 'batchnorm', 'learn', 'pooled']),
    'C33': dict(
        mc=[dict(module='LearnerMC', cfg=Q('LearnerMC_q.cfg', 'LearnerMC_t.cfg'), workers=4, must_fire=['RunAny'])]
        + [dict(module='LearnerMC', cfg=f'LearnerMC_{f}.cfg', refutes='Accepted') for f in ('swapped', 'one_epoch', 'no_ensemble', 'unaligned', 'stale')],
        gen=[dict(name='learner', module='LearnerMC', cfg=Q('LearnerGen_q.cfg', 'LearnerGen_t.cfg'))],
        traces=[dict(driver='learner', spec='LearnerTrace', gen='learner', shards=Q(7, 7),
                     params=Q(dict(n=1, pictures=6), dict(n=8, pictures=60)),
                     corrupt=[('Script', 'finite', 'flip'), ('Script', 'again', 'flip'), ('Model', 'nin', 1), ('Model', 'n', 1), ('Vote', 'ens.0.1', 2000),
                              ('Reload', 'got.0', 30000), ('Reload', 'asked.1', 30000), ('Reload', 'net.2', 30000), ('Picture', 'max.1', 200), ('Picture', 'n', 1),
                              ('Picture', 'hi.0', 300), ('Drawings', 'drawn.0.got.beam.0', 100), ('Drawings', 'drawn.0.got.si2.1', 100),
                              ('Drawings', 'states.0', 1), ('Script', 'other', 'flip')])],
        must=['rate_network', 'classification_network', 'context_0', 'context_1', 'bootstrapped', 'small_data', 'augmented', 'unaugmented', 'run_again', 'quiet',
              'repeated', 'pictured', 'model', 'vote', 'reload', 'picture', 'odd_number_of_points', 'fixed_context', 'files', 'one_file', 'own_sample', 'settings', 'distilled', 'not_distilled',
              'drawings', 'drawn_label', 'drawn_image', 'left_out', 'drawn_move', 'drawn_stay']),
    'C34': dict(
        mc=[dict(module='FetchMC', cfg=Q('FetchMC_q.cfg', 'FetchMC_t.cfg'), workers=4,
                 must_fire=['Start', 'Look', 'Open', 'Unpack', 'Aside', 'Into', 'Die'])]
        + [dict(module='FetchMC', cfg=f'FetchMC_{f}.cfg', refutes=inv)
           for f, inv in (('in_place', 'NeverPartial'), ('in_place1', 'Accepted'), ('marked', 'Accepted'))],
        gen=[dict(name='fetch', module='FetchMC', cfg=Q('FetchGen_q.cfg', 'FetchGen_t.cfg'))],
        traces=[dict(driver='fetch', spec='FetchTrace', gen='fetch', shards=Q(7, 7), params=Q(dict(reps=1), dict(reps=6)),
                     corrupt=[('Call', 'seen', 1), ('Call', 'after', -9), ('Resume', 'after', -9)])],
        must=['detector', 'aligner', 'home', 'agent', 'returned', 'raised', 'killed', 'good', 'missing', 'truncated', 'corrupt', 'fail', 'kill',
              'on_disk', 'replaced', 'reload', 'broken_on_disk', 'broken_reload', 'after_litter', 'killed_reload', 'pause', 'resume_returned', 'overtaken']),
    'C35': dict(
        mc=[dict(module='SavedMC', cfg=Q('SavedMC_q.cfg', 'SavedMC_t.cfg'), workers=4, must_fire=['Checkpoint', 'Final', 'Save', 'Use'])]
        + [dict(module='SavedMC', cfg=f'SavedMC_{f}.cfg', refutes=i)
           for f, i in (('latest', 'Accepted'), ('last_version', 'Accepted'), ('worst', 'Accepted'), ('replaces', 'Accepted'),
                        ('no_folder', 'Accepted'), ('moved', 'Accepted'))],
        gen=[dict(name='saved', module='SavedMC', cfg=Q('SavedGen_q.cfg', 'SavedGen_t.cfg'))],
        traces=[dict(driver='saved', spec='SavedTrace', gen='saved', shards=Q(7, 7), params=Q(dict(n=24, big=2), dict(n=400, big=4)),
                     corrupt=[('Save', 'files.0', 1), ('Save', 'moved', 'flip'), ('Save', 'names', 1), ('Save', 'out', 'flip'), ('Use', 'ver', 1),
                              ('Use', 'local', 1), ('Use', 'global', 1)])],
        must=['detector', 'aligner', 'Checkpoint', 'Final', 'first', 'replaced', 'refused', 'relative', 'default_name', 'best_is_older', 'best_is_newest',
              'use_detector', 'use_aligner', 'older_than_best', 'all_steps']),
}
