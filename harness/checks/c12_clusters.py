"""C12: clusters are the connected components of the feature size graph."""
import random

from common import *

from nodefinder.identify import run_from_positions
from nodefinder.identify._cluster import create_clusters

ID = 'C12'
LEVEL = 'exploration'
TECHNIQUE = 'model-based property testing (union-find on exact distances)'
NOTE = (
    'Random positions on exact grids (including pairs exactly one feature '
    'size apart) and chains; the clusters are compared to a union-find on '
    'exact integer distances, and must not change with order, repetitions, '
    'lattice translations and units.'
)
RULE = (
    'Boxes of 1-4 dimensions, up to 40 (sub "many": 300, "huge": 4000) positions; '
    'sub "near": positions which differ by as little as 1e-13. '
    'Non-trivial: more than one cluster, and at least one cluster of three or '
    'more positions of which some pair is further apart than the feature size.'
)
ASSUMPTIONS = [
    'Coordinates are multiples of a power of two, so that distances on the '
    'boundary are exact.'
]


class UnionFind:
    def __init__(self, num):
        self.parent = list(range(num))

    def find(self, i):
        while self.parent[i] != i:
            self.parent[i] = self.parent[self.parent[i]]
            i = self.parent[i]
        return i

    def join(self, i, j):
        self.parent[self.find(i)] = self.find(j)


@st.composite
def cases(draw, max_num=40, min_num=0):
    """Integer coordinates in units of 2**-bits."""
    dim = draw(weighted((3, 1), (4, 2), (4, 3), (1, 4)))
    periodic = draw(weighted((2, True), (1, False)))
    size = [draw(st.sampled_from([64, 96, 40, 128, 200])) for _ in range(dim)]
    low = [draw(st.sampled_from([0, -32, -100, 7, 50])) for _ in range(dim)]
    fs = draw(st.sampled_from([5, 5, 5, 10, 13, 4, 3, 25, 1, 60]))
    num = draw(st.integers(min_num, max_num))
    steps = [[fs if j == i else 0 for j in range(dim)] for i in range(dim)]
    if fs % 5 == 0 and dim > 1:
        steps.append([fs * 3 // 5, fs * 4 // 5] + [0] * (dim - 2))
    if fs == 13 and dim > 1:
        steps.append([0] * (dim - 2) + [12, 5])
    near = steps + [[x + (1 if i == 0 else 0) for i, x in enumerate(s)]
                    for s in steps]
    seed = draw(st.integers(0, 2**32))
    rng = random.Random(seed)
    style = draw(st.sampled_from(['mixed', 'mixed', 'chain', 'random']))
    pts = []
    for _ in range(num):
        kind = rng.random()
        if pts and style != 'random' and kind < (0.9 if style == 'chain'
                                                 else 0.6):
            base = pts[-1] if style == 'chain' else rng.choice(pts)
            step = rng.choice(near)
            sign = rng.choice([-1, 1])
            pt = [b + sign * s for b, s in zip(base, step)]
        else:
            pt = [rng.randint(lo, lo + s) for lo, s in zip(low, size)]
        if periodic or all(
            lo - fs <= x <= lo + s + fs for x, lo, s in zip(pt, low, size)
        ):
            pts.append(pt)
    return dict(
        size=size, low=low, fs=fs, periodic=periodic, points=pts,
        bits=draw(st.sampled_from([6, 0, 3, 10, -4])),
        seed=draw(st.integers(0, 10**6)),
        kind=draw(st.sampled_from(['tuple', 'array', 'list'])),
        fold=draw(st.booleans()),
        identify=draw(weighted((3, False), (1, True))),
    )


def exact_groups(points, size, periodic, fs):
    num = len(points)
    arr = np.array(points, dtype=np.int64).reshape(num, len(size))
    sizes = np.array(size, dtype=np.int64)
    union = UnionFind(num)
    far = False
    for i in range(num):
        diff = arr - arr[i]
        if periodic:
            diff = diff % sizes
            diff = np.minimum(diff, sizes - diff)
        sq = (diff * diff).sum(axis=-1)
        for j in np.flatnonzero(sq <= fs * fs):
            union.join(i, int(j))
    groups = {}
    for i, p in enumerate(points):
        groups.setdefault(union.find(i), set()).add(tuple(p))
    return groups.values()


def run_case(case):
    size, low, fs = case['size'], case['low'], case['fs']
    periodic = case['periodic']
    rng = random.Random(case['seed'])
    ints = [tuple(p) for p in case['points']]
    if periodic and case['fold']:
        ints = [
            tuple((x - lo) % s + lo for x, lo, s in zip(p, low, size))
            for p in ints
        ]

    def clusters(points, bits, kind, identify=False):
        unit = 2.**-bits
        cs = CoordinateSystem(
            limits=[(lo * unit, (lo + s) * unit) for lo, s in zip(low, size)],
            periodic=periodic
        )
        pos = [tuple(float(x) * unit for x in p) for p in points]
        if kind == 'array':
            pos = [np.array(p) for p in pos]
        elif kind == 'list':
            pos = [list(p) for p in pos]
        if identify:
            res = [
                [tuple(p) for p in r.positions] for r in run_from_positions(
                    pos, coordinate_system=cs, feature_size=fs * unit,
                    evaluate_line_method='ballistic'
                )
            ]
        else:
            res = [
                [tuple(p) for p in g.nodes] for g in create_clusters(
                    pos, coordinate_system=cs, feature_size=fs * unit
                )
            ]
        groups = []
        for group in res:
            conv = [tuple(float(x) / unit for x in p) for p in group]
            require(
                len(set(conv)) == len(conv), 'position repeated in a cluster'
            )
            groups.append(frozenset(conv))
        require(
            sum(map(len, groups)) == len(set().union(*groups))
            if groups else True, 'a position is in several clusters'
        )
        require(len(set(groups)) == len(groups), 'cluster reported twice')
        return set(groups)

    def expect(points):
        return set(
            frozenset(tuple(map(float, p)) for p in g)
            for g in exact_groups(points, size, periodic, fs)
        )

    def compare(got, exp, what):
        if got == exp:
            return
        one = sorted(sorted(g) for g in got - exp)
        two = sorted(sorted(g) for g in exp - got)
        raise Violation(
            '{}: clusters {} instead of {} (feature size {})'.format(
                what, one[:3], two[:3], fs
            )
        )

    exp = expect(ints)
    compare(clusters(ints, case['bits'], case['kind']), exp, 'clusters')
    if case['identify']:
        compare(
            clusters(ints, case['bits'], case['kind'], identify=True), exp,
            'identified objects'
        )
    if ints:
        shuffled = ints + [rng.choice(ints) for _ in range(3)]
        rng.shuffle(shuffled)
        compare(
            clusters(shuffled, case['bits'], 'tuple'), exp,
            'repeated and in another order'
        )
        compare(
            clusters(ints[::-1], case['bits'] + rng.choice([-9, 7, 20]),
                     'array'), exp, 'in other units'
        )
        if periodic:
            moved = [
                tuple(x + s * rng.randint(-2, 2) for x, s in zip(p, size))
                for p in ints
            ]
            compare(
                clusters(moved, case['bits'], 'tuple'), expect(moved),
                'moved by whole box lengths'
            )
            # some positions given twice, in different images
            both = ints + moved[:5]
            compare(
                clusters(both, case['bits'], 'tuple'), expect(both),
                'with images'
            )
    nontrivial = len(exp) > 1 and any(
        len(g) > 2 and any(
            max(abs(a - b) for a, b in zip(p, q)) > fs for p in g
            for q in list(g)[:1]
        ) for g in exp
    )
    return Report(nontrivial, ['periodic' if periodic else 'box'])


# -- almost equal positions -------------------------------------------------

@st.composite
def near_cases(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    return dict(
        dim=dim, size=[draw(st.sampled_from([64, 100, 37]))
                       for _ in range(dim)],
        low=[draw(st.sampled_from([0, -50, 100])) for _ in range(dim)],
        num=draw(st.integers(1, 25)), copies=draw(st.integers(2, 4)),
        periodic=draw(st.booleans()), fs=draw(st.sampled_from([1, 3, 7, 20])),
        bits=draw(st.sampled_from([0, 0, 6, 20, -20])),
        tiny=draw(st.sampled_from([-44, -40, -30])),
        seed=draw(st.integers(0, 2**32)),
    )


def run_near(case):
    """
    Positions which differ by very little are different positions, and in the
    same cluster.
    """
    rng = random.Random(case['seed'])
    size, low, dim = case['size'], case['low'], case['dim']
    unit = 2.**-case['bits']
    base = list(set(
        tuple(rng.randint(lo + 1, lo + s - 1) for lo, s in zip(low, size))
        for _ in range(case['num'])
    ))
    # (in between of possible distances)
    fs = math.sqrt(case['fs']**2 + 0.5)
    images = {}
    for point in base:
        for _ in range(case['copies']):
            pos = tuple(
                (x + rng.randint(0, 3) * 2.**case['tiny']) * unit
                for x in point
            )
            images.setdefault(point, set()).add(pos)
    cs = CoordinateSystem(
        limits=[(lo * unit, (lo + s) * unit) for lo, s in zip(low, size)],
        periodic=case['periodic']
    )
    positions = [p for point in base for p in images[point]]
    rng.shuffle(positions)
    expected = set()
    # (squares of integers are at least one half away from the feature size)
    for group in exact_groups(base, size, case['periodic'], fs):
        expected.add(frozenset(p for point in group for p in images[point]))
    check_clusters(
        expected, positions, cs, fs * unit, 'almost equal positions'
    )
    return Report(
        len(positions) > len(base) and len(expected) > 1,
        ['periodic' if case['periodic'] else 'box']
    )


def check_clusters(expected, positions, cs, feature_size, what):
    got = [
        [tuple(map(float, p)) for p in g.nodes] for g in create_clusters(
            positions, coordinate_system=cs, feature_size=feature_size
        )
    ]
    require(
        sum(map(len, got)) == len(set(positions)),
        '{}: {} positions in clusters, of {}', what, sum(map(len, got)),
        len(set(positions))
    )
    got = set(map(frozenset, got))
    if got != expected:
        raise Violation('{}: {} clusters of sizes {} instead of {} of {}'.format(
            what, len(got), sorted(map(len, got))[-5:], len(expected),
            sorted(map(len, expected))[-5:]
        ))


# -- thousands of positions -------------------------------------------------

@st.composite
def huge_cases(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    return dict(
        dim=dim, num=draw(st.sampled_from([1200, 2500, 4000])),
        periodic=draw(st.booleans()),
        # mean number of neighbours
        density=draw(st.sampled_from([0.3, 1., 2., 4.])),
        fs=draw(st.sampled_from([10, 30])), bits=draw(st.sampled_from([0, 9])),
        seed=draw(st.integers(0, 2**32)),
    )


def run_huge(case):
    rng = random.Random(case['seed'])
    dim, fs = case['dim'], case['fs']
    ball = {1: 2, 2: math.pi, 3: 4 * math.pi / 3}[dim] * fs**dim
    side = max(
        3 * fs, int((case['num'] * ball / case['density'])**(1 / dim))
    )
    size = [side] * dim
    points = list(set(
        tuple(rng.randrange(side) for _ in range(dim))
        for _ in range(case['num'])
    ))
    rng.shuffle(points)
    unit = 2.**-case['bits']
    cs = CoordinateSystem(
        limits=[(0., side * unit)] * dim, periodic=case['periodic']
    )
    expected = set(
        frozenset(tuple(x * unit for x in p) for p in g)
        for g in exact_groups(points, size, case['periodic'], fs)
    )
    positions = [tuple(x * unit for x in p) for p in points]
    check_clusters(expected, positions, cs, fs * unit, 'many positions')
    return Report(
        1 < len(expected) and max(map(len, expected)) > 2,
        ['periodic' if case['periodic'] else 'box']
    )


SUBS = [
    Sub('huge', huge_cases(), run_huge, 32, 1000, shards=8),
    Sub('near', near_cases(), run_near, 640, 16000),
    Sub('clusters', cases(), run_case, 2400, 60000),
    Sub('many', cases(max_num=300, min_num=60), run_case, 160, 4000),
]
