"""C14: shapes of lines."""
import random
from collections import Counter

from shapes import *
from checks.c13_dimension import identify

from nodefinder.identify.result import NodalLine

ID = 'C14'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing with graph invariants and known curves'
NOTE = (
    'Line graphs of sampled curves, networks of lines and irregular positions '
    'are checked against an independent graph of the positions; densely '
    'sampled closed and open curves must be named as such, for all methods.'
)
RULE = (
    'All three methods are used for each case. Non-trivial: an object of '
    'dimension one with a graph of at least four vertices.'
)
ASSUMPTIONS = [
    'The names are decided for the curves of C13 (closed ones with a length of '
    'at least 14 feature sizes); the graph invariants for any positions.'
]

METHODS = ['ballistic', 'shortest_path', 'dominating_set']


def components(nodes, edges):
    parent = {n: n for n in nodes}

    def find(n):
        while parent[n] != n:
            parent[n] = parent[parent[n]]
            n = parent[n]
        return n

    for a, b in edges:
        parent[find(a)] = find(b)
    return len(set(find(n) for n in nodes))


def check_line(obj, box, fs, method):
    """Invariants of a line shape."""
    shape = obj.shape
    require(
        isinstance(shape, NodalLine), '{}: shape of a line is {!r}', method,
        shape
    )
    tol = 1e-9 * fs + 1e-12 * box.scale()
    positions = [tuple(map(float, p)) for p in obj.positions]
    nodes = [tuple(map(float, n)) for n in shape.graph.nodes]
    edges = [
        (tuple(map(float, a)), tuple(map(float, b)))
        for a, b in shape.graph.edges
    ]
    require(nodes, '{}: the graph has no vertices', method)
    require(
        set(nodes) <= set(positions),
        '{}: vertices which are not positions of the cluster', method
    )
    for a, b in edges:
        require(
            a != b and box.dist(a, b) <= fs + tol,
            '{}: edge of length {} (feature size {})', method, box.dist(a, b),
            fs
        )
    for pos in positions:
        require(
            box.dist_many(pos, nodes).min() <= fs + tol,
            '{}: position {} is not covered by the graph', method, pos
        )
    if method != 'ballistic':
        num = components(nodes, edges)
        require(num == 1, '{}: the graph has {} components', method, num)
    degree = Counter()
    for a, b in edges:
        degree[a] += 1
        degree[b] += 1
    counts = Counter(degree[n] for n in nodes)
    counts.pop(2, None)
    require(
        {int(k): int(v) for k, v in shape.degree_count.items()} ==
        dict(counts), '{}: degree count {} instead of {}', method,
        shape.degree_count, counts
    )
    name = {(): 'CLOSED LOOP', ((1, 2),): 'OPEN LINE'}.get(
        tuple(sorted(counts.items())), None
    )
    if name is None:
        require(
            shape.shape_name not in ('CLOSED LOOP', 'OPEN LINE'),
            '{}: a graph with degrees {} is named {}', method, dict(counts),
            shape.shape_name
        )
    else:
        require(
            shape.shape_name == name,
            '{}: a graph with degrees {} is named {}', method, dict(counts),
            shape.shape_name
        )
    return len(nodes)


CURVES = [k for k, v in KINDS.items() if v[0] == 1]


def run_curve(case):
    pts, limits, fs = make_shape(case)
    box = Box(limits, case['periodic'])
    expected = 'CLOSED LOOP' if KINDS[case['kind']][1] else 'OPEN LINE'
    for method in METHODS:
        res = identify(
            pts, limits, case['periodic'], fs, case['seed'],
            evaluate_line_method=method
        )
        require(
            len(res) == 1 and res[0].dimension == 1,
            '{} with {} positions was identified as {}', case['kind'],
            len(pts), res
        )
        check_line(res[0], box, fs, method)
        require(
            res[0].shape.shape_name == expected,
            '{} with {} positions is a {} with method {}', case['kind'],
            len(pts), res[0].shape.shape_name, method
        )
    return Report(True, [case['kind']])


@st.composite
def network_cases(draw):
    """Networks of straight lines, possibly noisy, and irregular positions."""
    dim = draw(weighted((1, 1), (3, 2), (3, 3)))
    kind = draw(weighted((3, 'network'), (2, 'irregular'), (1, 'walk')))
    corner = st.lists(floats(0, 12), min_size=dim, max_size=dim)
    corners = draw(st.lists(corner, min_size=2, max_size=6))
    num = len(corners)
    return dict(
        kind=kind, dim=dim, periodic=draw(st.booleans()),
        size=[draw(floats(8, 12)) for _ in range(dim)],
        corners=corners,
        lines=draw(st.lists(
            st.tuples(st.integers(0, num - 1), st.integers(0, num - 1)).map(
                list), min_size=1, max_size=6
        )),
        density=draw(floats(1.2, 6)), noise=draw(floats(0, 0.15)),
        num=draw(st.integers(2, 60)),
        unit=draw(st.sampled_from([1., 1e-3, 2.**10])),
        seed=draw(st.integers(0, 2**32)),
    )


def make_network(case):
    rng = np.random.default_rng(case['seed'])
    dim = case['dim']
    size = np.array(case['size'])
    if case['kind'] == 'network':
        parts = []
        for i, j in case['lines']:
            a, b = (np.array(case['corners'][k]) for k in (i, j))
            num = int(np.linalg.norm(b - a) * case['density']) + 1
            s = np.linspace(0, 1, num)[:, None]
            parts.append(a + s * (b - a))
        pts = np.concatenate(parts)
    elif case['kind'] == 'walk':
        steps = rng.normal(size=(case['num'], dim))
        steps = np.cumsum(rng.normal(size=(case['num'], dim)) * 0.3 + steps[0]
                          / np.linalg.norm(steps[0]) * 0.3, axis=0)
        pts = size / 2 + steps
    else:
        extent = size.copy()
        extent[1:] *= rng.choice([0.02, 0.06, 0.2])
        pts = rng.uniform(0, 1, (case['num'], dim)) * extent
    pts = pts + rng.normal(size=pts.shape) * case['noise']
    if case['periodic']:
        pts = pts % size
    unit = case['unit']
    limits = [(0., float(s * unit)) for s in size]
    return [tuple(float(x) for x in p * unit) for p in pts], limits, unit


def run_network(case):
    pts, limits, fs = make_network(case)
    box = Box(limits, case['periodic'])
    nontrivial = False
    labels = set([case['kind']])
    for method in METHODS:
        res = identify(
            pts, limits, case['periodic'], fs, case['seed'],
            evaluate_line_method=method
        )
        for obj in res:
            if obj.dimension == 1:
                num = check_line(obj, box, fs, method)
                labels.add(obj.shape.shape_name)
                nontrivial = nontrivial or num >= 4
    return Report(nontrivial, sorted(labels))


SUBS = [
    Sub('curves', shape_cases(kinds=CURVES), run_curve, 320, 10000, shards=16),
    Sub('networks', network_cases(), run_network, 640, 20000, shards=16),
]
