"""C23: isolated nodes are found and identified as points."""
import random

from common import *

from nodefinder.identify.result import NodalPoint

ID = 'C23'
LEVEL = 'exploration'
TECHNIQUE = (
    'end-to-end property-based testing with gap functions of known nodes'
)
NOTE = (
    'Random gap functions with one to three known isolated nodes in one to '
    'three dimensions are searched with default settings and identified; the '
    'nodes and identified points are compared to the known ones.'
)
RULE = (
    'Nodes separated by at least 0.35 of the box (in one dimension: two mesh '
    'points), or by 2.4 feature sizes and two mesh spacings on finer meshes, '
    'feature sizes of 0.03 to 0.15 of it. Non-trivial: more than one '
    'node, or a node across a periodic boundary.'
)
ASSUMPTIONS = [
    'The gap is the minimum (or product) of distances to the nodes, or of '
    'their squares, for which the mesh has a starting point in each basin. In '
    'one dimension, the threshold is at least the change of the gap over the '
    'default tolerance.'
]


# Separation of nodes in dense cases, in feature sizes and mesh spacings
DENSE_FS, DENSE_MESH = 2.4, 2.


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([1, 2, 2, 2, 3]))
    forms = ['dist', 'square'] + ['product'] * (dim > 1)
    dense = draw(st.booleans()) if dim == 2 else (
        dim == 3 and draw(weighted((3, False), (1, True))))
    if dense:
        return dict(
            dim=dim, periodic=draw(st.booleans()), dense=True,
            scale=draw(st.sampled_from([1., 1., 0.01, 50.])),
            num=draw(st.integers(3, 12 if dim == 2 else 6)),
            form=draw(st.sampled_from(['dist', 'square'])),
            edge=draw(st.booleans()),
            fs=draw(floats(0.03, 0.1) if dim < 3 else floats(0.08, 0.15)),
            mesh=draw(st.integers(6, 11) if dim == 2 else st.integers(5, 6)),
            fake=draw(st.booleans()),
            parallel=draw(st.sampled_from([None, 1, 5])),
            asynchronous=draw(weighted((3, False), (1, True))),
            seed=draw(st.integers(0, 2**32)),
        )
    return dict(
        dim=dim, dense=False, periodic=draw(st.booleans()),
        scale=draw(st.sampled_from([1., 1., 0.01, 50.])),
        num=draw(st.integers(1, 3)),
        form=draw(st.sampled_from(forms)),
        edge=draw(st.booleans()),
        fs=draw(floats(0.03, 0.1) if dim < 3 else floats(0.06, 0.1)),
        mesh=draw(st.integers(12, 16) if dim == 1 else st.integers(4, 5)),
        fake=draw(weighted((3, False), (2, True))),
        parallel=draw(st.sampled_from([None, 1, 5])),
        asynchronous=draw(weighted((3, False), (1, True))),
        seed=draw(st.integers(0, 2**32)),
    )


def make_problem(case):
    rng = np.random.default_rng(case['seed'])
    dim, scale, periodic = case['dim'], case['scale'], case['periodic']
    size = scale * rng.uniform(0.8, 1.25, dim)
    lo = scale * rng.uniform(-2, 2, dim)
    limits = [[float(a), float(a + b)] for a, b in zip(lo, size)]
    box = Box(limits, periodic)
    sep = (0.35 if dim > 1 else 0.25) * scale
    if case['dense']:
        # relative to the mesh and feature size
        sep = max(
            DENSE_FS * case['fs'] * scale,
            DENSE_MESH * max(size) / case['mesh']
        )
    nodes = []
    for _ in range(200):
        if len(nodes) == case['num']:
            break
        if periodic:
            frac = rng.uniform(0, 1, dim)
            if case['edge']:
                # at the boundary
                frac[rng.integers(dim)] = rng.choice([0., 1e-4, 1 - 1e-4])
        else:
            frac = rng.uniform(0.1, 0.9, dim)
        pos = lo + size * frac
        if all(box.dist(pos, q) > sep for q in nodes):
            nodes.append(pos)
    arr = np.array(nodes)
    form = case['form']

    def gap(pos):
        dist = box.dist_many(pos, arr) / scale
        if form == 'dist':
            return float(np.min(dist))
        if form == 'square':
            return float(3 * np.min(dist)**2)
        return float(np.prod(np.minimum(dist, 1.)))

    return limits, nodes, gap


def run_case(case):
    limits, nodes, gap = make_problem(case)
    box = Box(limits, case['periodic'])
    scale = case['scale']
    fs = case['fs'] * scale
    threshold = 1e-5
    if case['dim'] == 1 and case['form'] == 'dist':
        # All minimizations are on the same grid in one dimension, and can all
        # converge to points on both sides of the node.
        threshold = 0.0105 * case['fs']
    # how far nodes can be from the known position
    radius = scale * {
        'dist': threshold, 'square': math.sqrt(threshold / 3),
        'product': threshold / 0.25**2 * 2
    }[case['form']]
    kwargs = {}
    if case['parallel'] is not None:
        kwargs['num_minimize_parallel'] = case['parallel']
    func = gap
    if case['asynchronous']:
        async def func(pos):
            await asyncio.sleep(0)
            return gap(pos)
    random.seed(case['seed'])
    result = run(
        func, limits=limits, periodic=case['periodic'], feature_size=fs,
        gap_threshold=threshold, initial_mesh_size=case['mesh'],
        use_fake_potential=case['fake'], **kwargs
    )
    positions = [np.array(n.pos, dtype=float) for n in result.nodes]
    for node in nodes:
        dist = min([box.dist(node, p) for p in positions], default=math.inf)
        require(
            dist < fs, 'the node at {} was not found: the closest result is '
            '{} away (feature size {})', node.tolist(), dist, fs
        )
    for pos in positions:
        dist = min(box.dist(pos, n) for n in nodes)
        require(
            dist <= radius * (1 + 1e-6), 'result {} is {} from the next node',
            pos.tolist(), dist
        )
    found = nf.identify.run(result)
    shapes = [obj.shape for obj in found]
    require(
        len(found) == len(nodes), '{} nodes are identified as {} objects',
        len(nodes), len(found)
    )
    for obj in found:
        require(
            obj.dimension == 0 and isinstance(obj.shape, NodalPoint),
            'node is identified as {} (dimension {})', obj.shape,
            obj.dimension
        )
    for node in nodes:
        dist = [box.dist(node, s.position) for s in shapes]
        require(
            sum(d <= 2 * radius for d in dist) == 1,
            'no nodal point is identified at {}: distances {}',
            node.tolist(), dist
        )
    return Report(
        len(nodes) > 1 or (case['periodic'] and case['edge']),
        ['dim{}'.format(case['dim']), case['form'],
         'periodic' if case['periodic'] else 'open']
        + (['fake'] if case['fake'] else []),
        dict(results=len(positions), nodes=len(nodes))
    )


SUBS = [Sub('search', cases(), run_case, 240, 6000, shards=16)]
