"""C11: saving and loading preserves everything."""
import copy
import pickle
import random
import shutil

import h5py
import networkx as nx

from common import *
from checks.c03_soundness import make_result

from nodefinder.identify.result import (
    IdentificationResult, IdentificationResultContainer, NodalLine, NodalPoint
)

ID = 'C11'
LEVEL = 'exploration'
TECHNIQUE = 'property-based round-trip testing'
NOTE = (
    'Random results and states, constructed and produced by searches and '
    'identification, are saved, loaded, copied and pickled and compared field '
    'by field; the same for files in the formats of earlier versions.'
)
RULE = (
    'Objects with up to 40 results, 14 objects, 50 queued positions. '
    'Non-trivial: the object contains several results / objects of different '
    'kind (plain and joined, nodes and rejected, with and without shape).'
)
ASSUMPTIONS = [
    'Positions in periodic boxes are equal up to rounding errors of moving '
    'them into the box; no NaN values.'
]

DATA = os.path.join(
    os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__)))), 'data'
)


def save_load(obj, times=1):
    folder = scratch_dir()
    path = os.path.join(folder, 'data.hdf5')
    try:
        for _ in range(times):
            nf.io.save(obj, path)
            obj = nf.io.load(path)
        return obj
    finally:
        shutil.rmtree(folder)


def copies(obj):
    yield 'copy', copy.copy(obj)
    yield 'deepcopy', copy.deepcopy(obj)
    yield 'pickle', pickle.loads(pickle.dumps(obj))


FIELDS = ['value', 'success', 'status', 'message', 'num_fev', 'num_iter']
ARRAYS = ['simplex_history', 'fun_simplex_history']


def same_result(got, orig, box=None, what=''):
    require(
        type(got) is type(orig), '{}: type {} instead of {}', what, type(got),
        type(orig)
    )
    for name in FIELDS:
        val, exp = getattr(got, name), getattr(orig, name)
        require(
            val == exp and isinstance(val, str) == isinstance(exp, str),
            '{}: {} is {!r} instead of {!r}', what, name, val, exp
        )
    for name in ARRAYS:
        require(
            hasattr(got, name) == hasattr(orig, name), '{}: {} lost or added',
            what, name
        )
        if hasattr(orig, name):
            require(
                np.array_equal(
                    np.asarray(getattr(got, name)),
                    np.asarray(getattr(orig, name))
                ), '{}: {} differs', what, name
            )
    p, q = [[float(x) for x in r.pos] for r in (got, orig)]
    require(len(p) == len(q), '{}: wrong dimension', what)
    if box is None:
        require(p == q, '{}: position {} instead of {}', what, p, q)
    else:
        require(
            box.dist(p, q) <= 1e-12 * max(
                [box.scale()] + [abs(x) for x in q + box.lo + box.hi]
            ), '{}: position {} instead of {}', what, p, q
        )
    if isinstance(orig, JoinedMinimizationResult):
        same_result(got.child, orig.child, box, what + '.child')
        same_result(got.ancestor, orig.ancestor, None, what + '.ancestor')


def same_cs(got, orig, what=''):
    require(
        np.array_equal(np.asarray(got.limits), np.asarray(orig.limits)) and
        bool(got.periodic) == bool(orig.periodic) and
        np.array_equal(got.size, orig.size) and got.dim == orig.dim,
        '{}: coordinate system {} instead of {}', what, got, orig
    )


def sort_key(res):
    return (
        np.asarray(res.simplex_history, dtype=float).tobytes(),
        float(res.value), bool(res.success), int(res.num_fev),
        tuple(map(float, res.pos))
    )


def same_container(got, orig, box, what=''):
    same_cs(got.coordinate_system, orig.coordinate_system, what)
    require(
        got.gap_threshold == orig.gap_threshold and
        got.dist_cutoff == orig.dist_cutoff, '{}: thresholds differ', what
    )
    for name in ['nodes', 'rejected_results', 'minimization_results']:
        one = sorted(getattr(got, name), key=sort_key)
        two = sorted(getattr(orig, name), key=sort_key)
        require(
            len(one) == len(two), '{}: {} {} instead of {}', what, len(one),
            name, len(two)
        )
        for a, b in zip(one, two):
            same_result(a, b, box, what + '.' + name)
    one, two = (
        sorted(tuple(map(float, p)) for p in c.refined_results)
        for c in (got, orig)
    )
    require(one == two, '{}: refined positions {} instead of {}', what, one,
            two)


def same_state(got, orig, box, what=''):
    same_container(got.result, orig.result, box, what + '.result')
    for name in ['simplex_queue', 'position_queue']:
        one, two = (
            sorted(np.array(o, dtype=float).tolist()
                   for o in getattr(s, name).objects)
            for s in (got, orig)
        )
        require(one == two, '{}: {} {} instead of {}', what, name, one, two)


def same_shape(got, orig, what=''):
    require(
        type(got) is type(orig), '{}: shape {} instead of {}', what, got, orig
    )
    if isinstance(orig, NodalPoint):
        require(
            [float(x) for x in got.position] ==
            [float(x) for x in orig.position], '{}: position differs', what
        )
    elif isinstance(orig, NodalLine):
        def tup(n):
            return tuple(float(x) for x in n)
        require(
            sorted(map(tup, got.graph.nodes)) ==
            sorted(map(tup, orig.graph.nodes)), '{}: graph nodes differ', what
        )
        require(
            sorted(sorted(map(tup, e)) for e in got.graph.edges) ==
            sorted(sorted(map(tup, e)) for e in orig.graph.edges),
            '{}: graph edges differ', what
        )
        require(
            dict(got.degree_count) == dict(orig.degree_count) and
            got.shape_name == orig.shape_name,
            '{}: degrees {} ({}) instead of {} ({})', what, got.degree_count,
            got.shape_name, orig.degree_count, orig.shape_name
        )


def same_object(got, orig, what=''):
    require(
        got.dimension == orig.dimension and
        (got.dimension is None) == (orig.dimension is None),
        '{}: dimension {!r} instead of {!r}', what, got.dimension,
        orig.dimension
    )
    one, two = (
        sorted(tuple(map(float, p)) for p in r.positions) for r in (got, orig)
    )
    require(one == two, '{}: positions differ', what)
    same_shape(got.shape, orig.shape, what + '.shape')


def same_identification(got, orig, what=''):
    same_cs(got.coordinate_system, orig.coordinate_system, what)
    require(
        got.feature_size == orig.feature_size, '{}: feature size differs', what
    )
    require(
        len(got) == len(orig) == len(list(got)), '{}: {} objects instead of '
        '{}', what, len(got), len(orig)
    )
    for a, b in zip(got, orig):
        same_object(a, b, what)


# -- constructed objects ----------------------------------------------------

def values():
    return st.one_of(
        floats(-1e3, 1e3), st.sampled_from([0., 1e-300, 1e300, math.inf, 5e-324])
    )


@st.composite
def result_specs(draw, dim):
    def single():
        length = draw(st.integers(1, 3))
        seed = draw(st.integers(0, 10**6))
        return dict(
            pos=[draw(floats(-3, 3)) for _ in range(dim)],
            value=draw(values()), success=draw(st.booleans()),
            status=draw(st.integers(0, 3)),
            message=draw(st.one_of(
                st.sampled_from([
                    'Optimization terminated successfully.', '',
                    'Maximum number of iterations has been exceeded.',
                    'Möbius \u2014 strip'
                ]), st.text(
                    st.characters(
                        blacklist_categories=['Cs'], min_codepoint=1
                    ), max_size=10
                )
            )),
            num_fev=draw(st.integers(0, 10**6)), num_iter=length, seed=seed,
            fun=draw(weighted((3, True), (1, False))),
            inf=draw(st.booleans())
        )
    if draw(weighted((2, False), (1, True))):
        one = single()
        two = single()
        two['fun'] = one['fun']
        return dict(kind='joined', child=one, ancestor=two)
    return dict(kind='plain', child=single())


def build_single(spec):
    rng = random.Random(spec['seed'])
    dim = len(spec['pos'])
    length = spec['num_iter']
    kwargs = dict(
        simplex_history=np.array([
            [[rng.gauss(0, 1) for _ in range(dim)] for _ in range(dim + 1)]
            for _ in range(length)
        ])
    )
    if spec['fun']:
        fun = np.array(
            [[rng.random() for _ in range(dim + 1)] for _ in range(length)]
        )
        if spec['inf']:
            fun[0, -1] = np.inf
        kwargs['fun_simplex_history'] = fun
    return MinimizationResult(
        pos=np.array(spec['pos']), value=spec['value'],
        success=spec['success'], status=spec['status'],
        message=spec['message'], num_fev=spec['num_fev'],
        num_iter=spec['num_iter'], **kwargs
    )


def build_result(spec):
    child = build_single(spec['child'])
    if spec['kind'] == 'plain':
        return child
    return JoinedMinimizationResult(
        child=child, ancestor=build_single(spec['ancestor'])
    )


@st.composite
def object_cases(draw):
    box = draw(boxes(dims=(1, 2, 3)))
    dim = len(box['limits'])
    results = draw(st.lists(result_specs(dim), max_size=5))
    pos = st.lists(floats(-3, 3), min_size=dim, max_size=dim)
    refined = draw(st.lists(pos, max_size=3))
    objects = []
    for _ in range(draw(st.integers(0, 4))):
        positions = draw(st.lists(pos, min_size=1, max_size=6))
        shape = draw(st.sampled_from(['none', 'point', 'line', 'line']))
        obj = dict(
            positions=positions, shape=shape,
            dimension=draw(st.sampled_from([None, 0, 1, 2, 3]))
        )
        if shape == 'point':
            obj['position'] = draw(pos)
        elif shape == 'line':
            num = len(positions)
            obj['edges'] = draw(st.lists(
                st.tuples(st.integers(0, num - 1), st.integers(0, num - 1))
                .map(list), max_size=8
            ))
        objects.append(obj)
    simplices = draw(st.lists(
        st.lists(pos, min_size=dim + 1, max_size=dim + 1), max_size=4
    ))
    return dict(
        box, results=results, refined=refined, objects=objects,
        simplices=simplices, positions=draw(st.lists(pos, max_size=4)),
        threshold=draw(st.sampled_from([0.5, 1e-6, 0., 2])),
        cutoff=draw(st.sampled_from([0.3, 0.5, 1e-2 if dim == 1 else 1.])),
        feature_size=draw(st.sampled_from([0.1, 0.02, 1])),
        times=draw(st.sampled_from([1, 1, 2])),
    )


def build_object(spec):
    shape = None
    if spec['shape'] == 'point':
        shape = NodalPoint(np.array(spec['position']))
    elif spec['shape'] == 'line':
        nodes = [tuple(p) for p in spec['positions']]
        graph = nx.Graph()
        graph.add_nodes_from(nodes)
        graph.add_edges_from(
            (nodes[i], nodes[j]) for i, j in spec['edges']
            if nodes[i] != nodes[j]
        )
        degrees = {}
        for _, deg in graph.degree:
            if deg != 2:
                degrees[deg] = degrees.get(deg, 0) + 1
        shape = NodalLine(graph, degrees)
    return IdentificationResult(
        positions=spec['positions'], dimension=spec['dimension'], shape=shape
    )


_QUEUES = []


def queue_types():
    """Types of the queues in a search state."""
    if not _QUEUES:
        folder = scratch_dir()
        path = os.path.join(folder, 'state.hdf5')
        try:
            run(
                lambda pos: 1., limits=[(0, 1)], gap_threshold=0.1,
                feature_size=0.3, initial_mesh_size=1, save_file=path
            )
            state = nf.io.load(path)
        finally:
            shutil.rmtree(folder)
        _QUEUES.extend([
            type(state.simplex_queue), type(state.position_queue)
        ])
    return _QUEUES


def same_queue(got, expected, what):
    one, two = (
        sorted(tuple(map(float, np.ravel(o))) for o in objs)
        for objs in (got, expected)
    )
    require(one == two, '{}: {} instead of {}', what, one, two)


def run_objects(case):
    box = Box(case['limits'], case['periodic'])
    times = case['times']
    cs = CoordinateSystem(
        limits=[tuple(x) for x in case['limits']], periodic=case['periodic']
    )
    same_cs(save_load(cs, times), cs, 'coordinate system')
    for _, other in copies(cs):
        same_cs(other, cs, 'coordinate system')
    results = [build_result(s) for s in case['results']]
    for res, spec in zip(results, case['results']):
        orig = build_result(spec)
        same_result(save_load(res, times), orig, None, 'result')
        for name, other in copies(res):
            same_result(other, orig, None, name)
        same_result(res, orig, None, 'saved result')
        if spec['kind'] == 'joined':
            # changing the position of a copy
            pos = np.array(res.pos) + 1.
            res.pos = pos
            require(
                np.array_equal(save_load(res).pos, pos),
                'a changed position is not saved'
            )
            res.pos = orig.pos
    cont = SearchResultContainer(
        coordinate_system=cs, minimization_results=results,
        gap_threshold=case['threshold'], dist_cutoff=case['cutoff'],
        refined_results=[np.array(p) for p in case['refined']]
    )
    same_container(save_load(cont, times), cont, box, 'loaded')
    for name, other in copies(cont):
        same_container(other, cont, box, name)
    simplex_type, position_type = queue_types()
    state = ControllerState(
        result=cont,
        simplex_queue=simplex_type(objects=np.array(case['simplices'])),
        position_queue=position_type(objects=np.array(case['positions']))
    )
    # repeated objects are queued once, in any order of the vertices
    simplices = {tuple(sorted(map(tuple, s))) for s in case['simplices']}
    positions = {tuple(p) for p in case['positions']}
    for what, other in [('state', state), ('loaded state', save_load(state, times))]:
        same_container(other.result, cont, box, what)
        same_queue(
            [sorted(map(tuple, s)) for s in other.simplex_queue.objects],
            simplices, what + ' simplices'
        )
        same_queue(
            other.position_queue.objects, positions, what + ' positions'
        )
    objects = [build_object(s) for s in case['objects']]
    for obj, spec in zip(objects, case['objects']):
        same_object(save_load(obj, times), obj, 'object')
        for name, other in copies(obj):
            same_object(other, obj, name)
        if obj.shape is not None:
            same_shape(save_load(obj.shape, times), obj.shape, 'shape')
    ident = IdentificationResultContainer(
        coordinate_system=cs, feature_size=case['feature_size'],
        results=objects
    )
    same_identification(save_load(ident, times), ident, 'identification')
    for name, other in copies(ident):
        same_identification(other, ident, name)
    check_legacy(cont, ident, box)
    labels = set(s['kind'] for s in case['results']) | set(
        s['shape'] for s in case['objects']
    )
    return Report(
        len(case['results']) > 1 and len(case['objects']) > 1, sorted(labels)
    )


def rewrite(path, func):
    with h5py.File(path, 'a') as f:
        func(f)


def check_legacy(cont, ident, box):
    """Files in older formats."""
    folder = scratch_dir()
    path = os.path.join(folder, 'legacy.hdf5')

    def set_tag(group, tag):
        del group['type_tag']
        group['type_tag'] = np.array(tag.encode())

    try:
        # old type tags, no refined results, messages as fixed length strings
        nf.io.save(cont, path)

        def old_search(f):
            set_tag(f, 'nodefinder.result_container')
            if 'refined_results' in f:
                del f['refined_results']

            def visit(group):
                if 'ancestor' in group:
                    set_tag(group, 'nodefinder.joined_result')
                for item in list(group.values()):
                    if isinstance(item, h5py.Group):
                        visit(item)
            visit(f)
        rewrite(path, old_search)
        expected = SearchResultContainer(
            coordinate_system=cont.coordinate_system,
            minimization_results=copy.deepcopy(cont.minimization_results),
            gap_threshold=cont.gap_threshold, dist_cutoff=cont.dist_cutoff
        )
        same_container(nf.io.load(path), expected, box, 'legacy search')
        # dimension as plain value, positions as list
        nf.io.save(ident, path)

        def old_identify(f):
            for i, orig in enumerate(ident):
                group = f['results'][str(i)]
                if orig.dimension is not None:
                    del group['dimension']
                    group['dimension'] = orig.dimension
                del group['positions']
                target = group.create_group('positions')
                target['type_tag'] = 'builtins.list'
                for j, pos in enumerate(orig.positions):
                    sub = target.create_group(str(j))
                    sub['type_tag'] = 'builtins.tuple'
                    for k, val in enumerate(pos):
                        num = sub.create_group(str(k))
                        num['type_tag'] = 'builtins.number'
                        num['value'] = val
        rewrite(path, old_identify)
        same_identification(nf.io.load(path), ident, 'legacy identification')
    finally:
        shutil.rmtree(folder)


# -- large objects ------------------------------------------------------------

@st.composite
def large_cases(draw):
    box = draw(boxes(dims=(1, 2, 3)))
    return dict(
        box, results=draw(st.sampled_from([0, 11, 12, 25, 40])),
        history=draw(st.sampled_from([3, 3, 40, 300])),
        objects=draw(st.sampled_from([0, 11, 14])),
        positions=draw(st.sampled_from([5, 12, 40, 1500])),
        queued=draw(st.sampled_from([0, 15, 50, 800])),
        seed=draw(st.integers(0, 2**32)),
        threshold=0.5, cutoff=0.3, feature_size=0.1
    )


def run_large(case):
    """Objects with many entries."""
    rng = random.Random(case['seed'])
    dim = len(case['limits'])

    def pos():
        return [rng.uniform(-3, 3) for _ in range(dim)]

    def single(fun):
        return dict(
            pos=pos(), value=rng.random(), success=rng.random() < 0.8,
            status=rng.randrange(4), message=rng.choice(['one', 'two', '']),
            num_fev=rng.randrange(10**4),
            num_iter=rng.randint(1, case['history']),
            seed=rng.randrange(10**6), fun=fun, inf=rng.random() < 0.2
        )

    results = []
    for _ in range(case['results']):
        fun = rng.random() < 0.7
        if rng.random() < 0.3:
            results.append(dict(
                kind='joined', child=single(fun), ancestor=single(fun)
            ))
        else:
            results.append(dict(kind='plain', child=single(fun)))
    objects = []
    for _ in range(case['objects']):
        most = case['positions']
        if len(objects) > 2:
            most = min(most, 40)
        positions = [pos() for _ in range(rng.randint((most + 1) // 2, most))]
        num = len(positions)
        shape = rng.choice(['none', 'point', 'line', 'line'])
        objects.append(dict(
            positions=positions, shape=shape,
            dimension=rng.choice([None, 0, 1, 2, 3]), position=pos(),
            edges=[[rng.randrange(num), rng.randrange(num)]
                   for _ in range(rng.randint(0, 2 * num))]
        ))
    full = dict(
        case, results=results, objects=objects, times=1,
        refined=[pos() for _ in range(case['queued'])],
        simplices=[[pos() for _ in range(dim + 1)]
                   for _ in range(case['queued'])],
        positions=[pos() for _ in range(case['queued'])]
    )
    return run_objects(full)


# -- results of actual runs -------------------------------------------------

@st.composite
def run_cases(draw):
    case = draw(search_cases(max_mesh=6, dims=(1, 2, 2, 3)))
    case['method'] = draw(st.sampled_from(
        ['ballistic', 'shortest_path', 'dominating_set']
    ))
    case['interrupt'] = draw(st.integers(1, 200))
    return case


class Interrupt(Exception):
    pass


def run_runs(case):
    box = Box(case['limits'], case['periodic'])
    result, _ = run_search(case)
    same_container(save_load(result), result, box, 'search')
    for name, other in copies(result):
        same_container(other, result, box, name)
    ident = nf.identify.run(result, evaluate_line_method=case['method'])
    same_identification(save_load(ident), ident, 'identify')
    for name, other in copies(ident):
        same_identification(other, ident, name)
    # state of an interrupted search
    func = make_gap(case['gap'], case['limits'], case['periodic'])
    count = [0]

    def gap(pos):
        count[0] += 1
        if count[0] == case['interrupt']:
            raise Interrupt
        return func(pos)

    folder = scratch_dir()
    path = os.path.join(folder, 'state.hdf5')
    try:
        run(gap, **search_kwargs(case, save_file=path))
    except Interrupt:
        pass
    state = nf.io.load(path)
    same_state(save_load(state), state, box, 'state')
    shutil.rmtree(folder)
    return Report(
        len(result.nodes) > 0 and len(result.rejected_results) > 0 or
        bool(state.simplex_queue.objects), [
            'dimension-{}'.format(r.dimension) for r in ident
        ]
    )


# -- sample files -----------------------------------------------------------

SAMPLES = ['point', 'line_1d', 'identify_point']


def run_sample(case):
    """Files which were written by earlier versions."""
    name = case['name']
    path = os.path.join(DATA, name + '.hdf5')
    folder = scratch_dir()
    target = os.path.join(folder, 'sample.hdf5')
    shutil.copyfile(path, target)
    obj = nf.io.load(target)
    with h5py.File(target, 'r') as f:
        cs = f['coordinate_system']
        limits = cs['limits'][()]
        box = Box(limits.tolist(), bool(cs['periodic'][()]))
        require(
            np.array_equal(obj.coordinate_system.limits, limits),
            'wrong limits'
        )

        def check_result(res, group, inner=False):
            if 'child' in group:
                check_result(res.ancestor, group['ancestor'], True)
                check_result(res.child, group['child'], True)
                group = group['child']
            for field in ['value', 'success', 'status']:
                require(
                    getattr(res, field) == group[field][()], '{} differs',
                    field
                )
            require(
                res.message == group['message'][()].decode(),
                'message differs'
            )
            require(
                box.dist(res.pos, group['pos'][()]) < 1e-12,
                'position differs'
            )
            if inner:
                require(
                    res.num_fev == group['num_fev'][()] and np.array_equal(
                        res.simplex_history, group['simplex_history'][()]
                    ), 'history differs'
                )

        if name == 'identify_point':
            require(obj.feature_size == f['feature_size'][()], 'feature size')
            require(len(obj) == len(f['results']) - 1 or
                    len(obj) == len(f['results']), 'number of results')
            for i, res in enumerate(obj):
                group = f['results'][str(i)]
                require(res.dimension == group['dimension'][()], 'dimension')
                require(
                    np.allclose(
                        res.shape.position,
                        box_position(group['shape']['position']), rtol=0,
                        atol=1e-13
                    ), 'shape differs'
                )
                positions = [
                    [p[str(k)]['value'][()] for k in range(3)]
                    for key, p in sorted(group['positions'].items())
                    if key != 'type_tag'
                ]
                require(
                    sorted(map(list, res.positions)) == sorted(positions),
                    'positions differ'
                )
            same_identification(save_load(obj), obj, 'saved again')
        else:
            groups = {
                key: g for key, g in f['minimization_results'].items()
                if key != 'type_tag'
            }
            require(
                len(groups) == len(obj.minimization_results),
                'number of results'
            )
            for g in groups.values():
                data = g['child'] if 'child' in g else g
                matches = [
                    r for r in obj.minimization_results
                    if r.value == data['value'][()] and
                    box.dist(r.pos, data['pos'][()]) < 1e-12 and
                    r.success == data['success'][()]
                ]
                require(matches, 'result is missing')
                errors = []
                for res in matches:
                    try:
                        check_result(res, g)
                        break
                    except Violation as exc:
                        errors.append(exc)
                else:
                    raise errors[0]
            for res in obj.nodes:
                require(res.value <= obj.gap_threshold and res.success, 'node')
            same_container(save_load(obj), obj, box, 'saved again')
    shutil.rmtree(folder)
    return Report(True, [name])


def box_position(item):
    if isinstance(item, h5py.Dataset):
        return item[()]
    return [
        item[str(k)]['value'][()] for k in range(len(item) - 1)
    ]


SUBS = [
    Sub('large', large_cases(), run_large, 48, 1200, shards=16),
    Sub('objects', object_cases(), run_objects, 320, 12000, shards=16),
    Sub('runs', run_cases(), run_runs, 120, 4000, shards=16),
    Sub('samples', st.sampled_from(SAMPLES).map(lambda n: dict(name=n)),
        run_sample, 9, 9, shards=3),
]
