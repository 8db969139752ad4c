"""Which specifications, generators, drivers and trace checks decide which property."""
def lifecycle(prof, quick, depth=8, laws=('LawProb',), **kw):
    return dict(name='lifecycle-' + prof, gen='LifecycleGen', constants=dict(Depth=depth, Prof=prof), laws=laws,
                driver='drv_model', trace='LifecycleTrace', quick=quick, **kw)

PROPS = {
    'C01': dict(note='Choice.tla in fixed point (1e-6); random small models, data and histories, every one compared',
        suites=[lifecycle('prob', 160)]),
    'C02': dict(note='as C01, slices, folds, threads and casewise values',
        suites=[lifecycle('ll', 160)]),
    'C05': dict(note='statistics of Lifecycle.tla over random histories', suites=[lifecycle('stats', 160, depth=14, laws=())]),
    'C07': dict(note='random edits, each in several spellings, of random models', suites=[lifecycle('edit', 200, depth=16, laws=())]),
    'C04': dict(note='Choice.tla against larch.numba models on trees; data as DataFrames, dense, idco or sparse Datasets',
        suites=[dict(lifecycle('numba', 110, depth=10), driver='drv_numba')]),
    'C03': dict(note='as C01, derivatives propagated through nests in the specification',
        suites=[lifecycle('score', 160)]),
    'C08': dict(note='estimation by several methods inside histories of values, limits, locks and data',
        suites=[lifecycle('est', 110, depth=10, laws=())]),
}
def hist(name, gen, trace, driver, quick, depth, laws=(), consts=None, **kw):
    c = dict(Depth=depth); c.update(consts or {})
    return dict(name=name, gen=gen, constants=c, laws=laws, driver=driver, trace=trace, quick=quick, **kw)

PROPS['C10'] = dict(note='Tree.tla: random histories with every view, and all histories of a three-alternative tree to a depth',
    suites=[hist('tree', 'TreeGen', 'TreeTrace', 'drv_tree', 300, 14, laws=('LawRooted',), consts=dict(Mode='rand'))],
    mc=[dict(module='TreeGen', suite='tree', constants=dict(Seed=0, NBeh=1, Mode='all'), quick=dict(Depth=4), thorough=dict(Depth=5), invariants=('LawRooted',))])
PROPS['C06'] = dict(note='Params.tla: random histories of a parameter frame with spec edits, every column and view compared exactly',
    suites=[hist('params', 'ParamsGen', 'ParamsTrace', 'drv_params', 350, 18, laws=('LawUsed', 'LawLocked'), consts=dict(Prof='frame'))])
PROPS['C15'] = dict(note='Params.tla: constraints by object and text in histories that move parameters; sign, gradient, binding flag at exact points',
    suites=[hist('constraints', 'ParamsGen', 'ParamsTrace', 'drv_params', 250, 18, laws=('LawUsed', 'LawLocked'), consts=dict(Prof='cons'))])

PROPS['C09'] = dict(note='Linear.tla: random expression trees and their text, copies, twins; histories of functions held in variables',
    suites=[hist('expressions', 'LinearGen', 'LinearTrace', 'drv_linear', 600, 30, laws=(), consts=dict(Prof='expr')),
            hist('functions', 'LinearGen', 'LinearTrace', 'drv_linear', 200, 24, laws=('LawNeg',), consts=dict(Prof='var'))])

PROPS['C11'] = dict(note='Frames.tla: co, ca and ce data in any order of rows, columns, levels and alternatives; conversions, summaries and model utilities against the values by label',
    suites=[hist('frames-form', 'FramesGen', 'FramesTrace', 'drv_frames', 400, 10, laws=('LawPart',), consts=dict(Prof='form'))])
PROPS['C12'] = dict(note='Frames.tla: histories of split, select, prepare, scale, save and load over several data collections',
    suites=[hist('frames-hist', 'FramesGen', 'FramesTrace', 'drv_frames', 250, 10, laws=('LawPart',), consts=dict(Prof='hist'))])
PROPS['C14'] = dict(note='Persist.tla: models copied, pickled, saved to files and workbooks, and loaded, edited and asked apart from one another; every field before and after',
    suites=[hist('persist', 'PersistGen', 'PersistTrace', 'drv_persist', 220, 18, laws=('LawNamed',))])
PROPS['C17'] = dict(note='Group.tla: histories of members joining and leaving, their data, shared values, limits, estimations',
    suites=[hist('group', 'GroupGen', 'GroupTrace', 'drv_group', 160, 14, laws=('LawKnows',))])
PROPS['C16'] = dict(note='Mixture.tla: class models over one data set, a membership model, shared values, edits of any part, estimations',
    suites=[hist('mixture', 'MixtureGen', 'MixtureTrace', 'drv_mixture', 110, 12, laws=('LawMix',))])
PROPS['C18'] = dict(note='Doctor.tla: histories of faulty data, checks and repairs (of models, data collections and data collections that lack parts); reports and data after every check against the specification',
    suites=[hist('doctor', 'DoctorGen', 'DoctorTrace', 'drv_doctor', 150, 12, laws=('LawRepair',))])
PROPS['C20'] = dict(note='Covar.tla: histories of limits, ties, locks and data in which covariances and likelihood ratios are asked for; matrices against the information matrix of the specification and against one another',
    suites=[hist('covariance', 'CovarGen', 'CovarTrace', 'drv_covar', 56, 12, laws=('LawLimits',))])
PROPS['C22'] = dict(note='Scores.tla: ranks, shares among the top k, log loss, and tables of choices and availabilities with and without nests, for random models, data and weights',
    suites=[hist('scores', 'ScoresGen', 'ScoresTrace', 'drv_scores', 120, 12, laws=('LawShare',))])
PROPS['C19'] = dict(note='Codes.tla: one-to-one codes of random tables (formats, lists, complete lists, paddings, prefixes), their names, nests and OGEV nests, recoding, and DataFrames.new_systematic_alternatives, decoded against the specification',
    suites=[hist('codes', 'CodesGen', 'CodesTrace', 'drv_codes', 200, 8, laws=('LawNames',))])
PROPS['C21'] = dict(note='Omx.tla: histories of one matrix file (matrices, look-ups, cells, crops, types, imports of files and tables, reopening, read-only modes) and of what is asked from it; the whole file against the specification after every step',
    suites=[hist('omx', 'OmxGen', 'OmxTrace', 'drv_omx', 320, 18, laws=('LawShape',))])
