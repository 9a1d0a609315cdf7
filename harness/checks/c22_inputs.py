"""C22: searching, identifying and plotting leave their inputs unchanged."""
import collections
import random
from types import MappingProxyType

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt

from common import *
from checks.c03_soundness import make_result
from checks.c14_lines import METHODS
from checks.c15_identify import clouds, make_cloud

from nodefinder.identify.result import NodalLine, NodalPoint

ID = 'C22'
LEVEL = 'exploration'
TECHNIQUE = (
    'property-based testing: content of all inputs before and after the call, '
    'and metamorphic repetition of the call'
)
NOTE = (
    'All inputs of random searches (also with an initial state, in the same '
    'or another box), identifications, plots and queries are compared '
    'bit by bit before and after the call, and searches are repeated with the '
    'same input objects.'
)
RULE = (
    'search: limits, mesh sizes, stencils and options of different types. '
    'results: random results and clouds of positions. queries: coordinate '
    'systems. Non-trivial: a search which refines or continues from a state, '
    'results with at least two objects, or queries of several positions.'
)
ASSUMPTIONS = ['The gap function does not modify its argument.']


# -- content ----------------------------------------------------------------

def content(obj):
    """Everything an input consists of, in a form which can be compared."""
    if isinstance(obj, np.ndarray):
        return ('array', obj.dtype.str, obj.shape, obj.tobytes())
    if isinstance(obj, collections.abc.Mapping):
        return (type(obj).__name__, sorted(
            (repr(k), content(v)) for k, v in obj.items()
        ))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, [content(x) for x in obj])
    if isinstance(obj, (set, frozenset)):
        return (type(obj).__name__, sorted(repr(x) for x in obj))
    if isinstance(obj, CoordinateSystem):
        return (
            'coordinates', content(np.asarray(obj.limits)), bool(obj.periodic)
        )
    if isinstance(obj, JoinedMinimizationResult):
        return ('joined', content(obj.child), content(obj.ancestor))
    if isinstance(obj, MinimizationResult):
        return ('result', content(vars(obj)))
    if isinstance(obj, SearchResultContainer):
        return (
            'container', content(obj.coordinate_system),
            [content(n) for n in obj.nodes],
            [content(n) for n in obj.rejected_results],
            [content(np.asarray(p)) for p in obj.refined_results],
            obj.gap_threshold, obj.dist_cutoff
        )
    if isinstance(obj, ControllerState):
        return (
            'state', content(obj.result),
            content([np.asarray(x) for x in obj.simplex_queue.objects]),
            content([np.asarray(x) for x in obj.position_queue.objects])
        )
    if isinstance(obj, NodalPoint):
        return ('point', content(np.asarray(obj.position)))
    if isinstance(obj, NodalLine):
        graph = obj.graph
        return (
            'line', repr(list(graph.nodes(data=True))),
            repr(list(graph.edges(data=True))), obj.shape_name,
            repr(obj.degree_count)
        )
    if isinstance(obj, nf.identify.result.IdentificationResult):
        return (
            'identified', [tuple(map(float, p)) for p in obj.positions],
            obj.dimension, content(obj.shape)
        )
    if isinstance(obj, nf.identify.result.IdentificationResultContainer):
        return (
            'identification', content(obj.coordinate_system),
            obj.feature_size, [content(x) for x in obj]
        )
    return repr(obj)


class Watch:
    """Compares the content of inputs before and after a call."""

    def __init__(self, **inputs):
        self.inputs = inputs
        self.before = {k: content(v) for k, v in inputs.items()}

    def check(self, what):
        for key, val in self.inputs.items():
            now = content(val)
            require(
                now == self.before[key], '{} was modified by {}', key, what
            )


# -- search -----------------------------------------------------------------

@st.composite
def cases(draw):
    case = draw(search_cases(max_mesh=6))
    if 'maxfev' not in case['nm']:
        case['nm']['maxfev'] = draw(st.sampled_from([30, 60, 200]))
    case['forms'] = dict(
        limits=draw(st.sampled_from(['lists', 'array', 'tuples'])),
        mesh=draw(st.sampled_from(['list', 'array', 'tuple'])),
        nm=draw(st.sampled_from(['dict', 'dict', 'proxy', 'chain'])),
    )
    case['state'] = draw(weighted(
        (2, None), (2, 'partial'), (1, 'finished')
    ))
    if case['state'] == 'partial':
        case['abort'] = draw(floats(0.1, 0.95))
    if case['state']:
        case['box2'] = draw(weighted(
            (2, None), (1, 'periodic'), (1, 'shifted')
        ))
        case['reload'] = draw(st.booleans())
        case['force'] = draw(st.booleans())
    return case


class Abort(Exception):
    pass


def make_state(case):
    """A state of the search, aborted or finished."""
    path = os.path.join(scratch_dir(), 'state.hdf5')
    if case['state'] == 'finished':
        run_search(case, save_file=path)
    else:
        _, gap = run_search(case)
        stop = max(1, int(case['abort'] * len(gap.calls)))
        calls = [0]

        def aborting(pos):
            calls[0] += 1
            if calls[0] > stop:
                raise Abort
            return gap.func(tuple(float(x) for x in pos))

        try:
            run_search(case, gap=aborting, save_file=path)
        except Abort:
            pass
    return nf.io.load(path)


def run_search_case(case):
    forms = case['forms']
    limits = [list(x) for x in case['limits']]
    periodic = case['periodic']
    if case['state']:
        state = make_state(case)
        if case['box2'] == 'periodic':
            periodic = not periodic
        elif case['box2'] == 'shifted':
            limits = [[a + 0.3 * (b - a), b + 0.3 * (b - a)]
                      for a, b in limits]
    else:
        state = None
    if forms['limits'] == 'array':
        limits = np.array(limits)
    elif forms['limits'] == 'tuples':
        limits = tuple(map(tuple, limits))
    mesh = {'list': list, 'array': np.array, 'tuple': tuple}[forms['mesh']](
        case['mesh']
    )
    options = dict(case['nm'])
    if forms['nm'] == 'proxy':
        options = MappingProxyType(options)
    elif forms['nm'] == 'chain':
        options = collections.ChainMap({}, options)
    stencil = make_stencil(case['stencil'], len(case['limits']))
    inputs = dict(
        limits=limits, initial_mesh_size=mesh, nelder_mead_kwargs=options,
        refinement_stencil=stencil, initial_state=state
    )
    func = make_gap(case['gap'], case['limits'], case['periodic'])
    outcome = []
    for i in range(2):
        watch = Watch(**inputs)
        gap = LoggedGap(func, limit=300000)
        result, _ = run_search(
            case, gap=gap, periodic=periodic,
            force_initial_mesh=bool(state and case['force']), **inputs
        )
        watch.check('the search' if i == 0 else 'the second search')
        outcome.append((gap.calls, container_key(result)))
    require(
        outcome[0][0] == outcome[1][0],
        'evaluations are different when the search is repeated with the same '
        'inputs'
    )
    require(
        outcome[0][1] == outcome[1][1],
        'results are different when the search is repeated with the same '
        'inputs'
    )
    labels = ['state-{}'.format(case['state'])]
    if state is not None:
        labels.append('box-{}'.format(case['box2']))
    return Report(
        len(outcome[0][1]['refined']) > 0 or state is not None, labels,
        dict(evaluations=len(outcome[0][0]))
    )


# -- results ----------------------------------------------------------------

@st.composite
def result_cases(draw):
    case = draw(clouds(dims=(2, 2, 3)))
    case['num'] = min(case['num'], 30)
    case['rejected'] = draw(st.integers(0, 3))
    case['joined'] = draw(st.booleans())
    case['plot'] = draw(st.booleans())
    case['posform'] = draw(st.sampled_from(['tuples', 'arrays', 'array',
                                            'lists']))
    case['state'] = draw(st.booleans())
    return case


def run_result_case(case):
    box = Box(case['limits'], case['periodic'])
    cloud = [tuple(float(x) for x in p) for p in make_cloud(case)]
    cs = CoordinateSystem(
        limits=[tuple(x) for x in case['limits']], periodic=case['periodic']
    )
    results = [
        make_result(p, 1e-7 * i, True, case['joined'] and i % 2 == 0)
        for i, p in enumerate(cloud)
    ] + [
        make_result([lo + 0.1 * i * s for lo, s in zip(box.lo, box.size)], 1.)
        for i in range(case['rejected'])
    ]
    fs = case['feature_size']
    result = SearchResultContainer(
        coordinate_system=cs, minimization_results=results, gap_threshold=0.1,
        dist_cutoff=max(fs / CUTOFF_FACTOR, 0.02 * min(box.size)),
        refined_results=[np.array(p) for p in cloud[::3]]
    )
    target = result
    if case['state']:
        target = ControllerState(
            result=result, simplex_queue=SimplexQueue(
                objects=[np.eye(box.dim + 1, box.dim)]
            ), position_queue=PositionQueue(objects=cloud[:2])
        )
    watch = Watch(result=target, coordinate_system=cs)
    random.seed(case['seed'])
    found = nf.identify.run(
        target, feature_size=fs, evaluate_line_method=case['method']
    )
    watch.check('the identification')
    if cloud:
        pos = {
            'tuples': lambda: list(cloud),
            'arrays': lambda: [np.array(p) for p in cloud],
            'array': lambda: np.array(cloud),
            'lists': lambda: [list(p) for p in cloud],
        }[case['posform']]()
        if case['posform'] == 'lists':
            pos = [np.array(p) for p in pos]
        inputs = Watch(positions=pos, coordinate_system=cs)
        nf.identify.run_from_positions(
            pos, coordinate_system=cs, feature_size=fs,
            evaluate_line_method=case['method']
        )
        inputs.check('the identification')
        for p in cloud[:5]:
            vec = np.array(p)
            query = Watch(result=result, position=vec)
            list(result.get_neighbour_distance_iterator(vec))
            list(result.get_refined_neighbour_distance_iterator(vec))
            list(result.get_all_neighbour_distances(vec))
            query.check('a query of neighbours')
    repr(result), repr(found)
    path = os.path.join(scratch_dir(), 'file.hdf5')
    every = Watch(result=target, identification=found)
    nf.io.save(target, path)
    nf.io.save(found, path)
    every.check('saving')
    if case['plot']:
        plt.close('all')
        nodes = list(result.nodes)[:3]
        settings = dict(color='C3')
        plots = Watch(
            result=result, identification=found, nodes=nodes,
            line_settings=settings
        )
        nf.search.plot.points(result)
        plots.check('the plot of points')
        nf.search.plot.simplices(result, nodes=nodes, line_settings=settings)
        plots.check('the plot of simplices')
        nf.identify.plot.result(found)
        plots.check('the plot of the identification')
        axis = plt.figure().add_subplot(
            111, projection='3d' if box.dim == 3 else None
        )
        for obj in found:
            if isinstance(obj.shape, NodalLine):
                nf.identify.plot.nodal_line(
                    obj.shape, axis=axis, color='C0', feature_size=fs
                )
            elif isinstance(obj.shape, NodalPoint):
                nf.identify.plot.nodal_point(
                    obj.shape, axis=axis, color='C0', feature_size=fs
                )
        plots.check('the plot of shapes')
        stencil = nf.search.refinement_stencil.get_auto_stencil(dim=box.dim)
        given = Watch(stencil=stencil)
        nf.search.plot.stencil(stencil)
        given.check('the plot of the stencil')
        plt.close('all')
    return Report(
        len(found) > 1, [case['method'], 'plot' if case['plot'] else 'no-plot']
        + sorted(set('dim{}'.format(x.dimension) for x in found)),
        dict(objects=len(found))
    )


# -- queries ----------------------------------------------------------------

@st.composite
def query_cases(draw):
    case = draw(boxes(dims=(1, 2, 3, 4)))
    dim = len(case['limits'])
    num = draw(st.integers(1, 6))
    coord = st.one_of(floats(-5, 5), st.sampled_from([0., 1., -1., 0.5]))
    case['positions'] = [
        [draw(coord) for _ in range(dim)] for _ in range(num)
    ]
    case['form'] = draw(st.sampled_from(['lists', 'array']))
    return case


def run_query_case(case):
    limits = [list(x) for x in case['limits']]
    if case['form'] == 'array':
        limits = np.array(limits)
    arr = np.array(case['positions'])
    first = arr[0].copy()
    given = Watch(limits=limits)
    cs = CoordinateSystem(limits=limits, periodic=case['periodic'])
    given.check('the coordinate system')
    watch = Watch(
        coordinate_system=cs, positions=arr, position=first, limits=limits
    )
    size = np.array(cs.size)
    calls = [
        ('distance', lambda: cs.distance(first, arr)),
        ('distance', lambda: cs.distance(arr, first)),
        ('connecting_vector', lambda: cs.connecting_vector(first, arr)),
        ('get_frac', lambda: cs.get_frac(arr)),
        ('get_pos', lambda: cs.get_pos(arr)),
        ('normalize_position', lambda: cs.normalize_position(arr)),
        ('average', lambda: cs.average(arr)),
        ('average', lambda: cs.average([np.array(p) for p in arr])),
    ]
    before = []
    for name, func in calls:
        val = np.array(func())
        before.append(val)
        watch.check(name)
    for (name, func), val in zip(calls, before):
        require(
            np.array_equal(np.array(func()), val),
            '{} gives a different result when it is called again', name
        )
    require(np.array_equal(size, cs.size), 'the size was modified')
    return Report(len(arr) > 1, [
        'periodic' if case['periodic'] else 'open'
    ])


SUBS = [
    Sub('search', cases(), run_search_case, 320, 6000, shards=16),
    Sub('results', result_cases(), run_result_case, 400, 6000, shards=16),
    Sub('queries', query_cases(), run_query_case, 800, 10000, shards=4),
]
