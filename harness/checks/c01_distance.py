"""C01: distances are the minimum over all images."""
from common import *

ID = 'C01'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing against a brute-force minimum-image oracle'
NOTE = (
    'Random boxes and positions; distances are compared to an independent '
    'minimum over lattice translations, and metamorphic relations.'
)
RULE = (
    'Random boxes (1-7 dimensions, limits in both orders, dyadic and arbitrary '
    'values over 24 orders of magnitude) and positions inside, outside and on '
    'the boundaries, and arrays of up to 3000 of them. Non-trivial: the positions differ and, in a periodic box, '
    'the shortest displacement is not the plain difference.'
)
ASSUMPTIONS = [
    'Positions are at most a few box lengths away from the box; numbers are '
    'compared to a relative accuracy of 1e-9 of the coordinates involved.'
]


@st.composite
def cases(draw, num_pos=3):
    dim = draw(weighted((3, 1), (5, 2), (5, 3), (1, 4), (1, 5), (1, 7)))
    unit = draw(st.sampled_from([1., 1., 1., 1e-3, 1e3, 2**-20, 2.**20,
                                 1e-12, 1e12]))
    periodic = draw(weighted((2, True), (1, False)))
    limits = []
    for _ in range(dim):
        lo = draw(st.one_of(dyadic(-4, 4, 2), floats(-10, 10)))
        size = draw(st.one_of(dyadic(0.25, 4, 2), floats(0.01, 10)))
        lim = [lo * unit, (lo + size) * unit]
        if draw(st.booleans()):
            lim.reverse()
        limits.append(lim)
    box = Box(limits, periodic)

    def position():
        res = []
        for lo, size in zip(box.lo, box.size):
            frac = draw(weighted(
                (4, floats(0, 1)), (2, floats(-4, 4)),
                (2, dyadic(-2, 2, 2)), (1, st.sampled_from([0., 1., 0.5]))
            ))
            res.append(lo + frac * size)
        return res

    return dict(
        limits=limits, periodic=periodic,
        positions=[position() for _ in range(num_pos)],
        shift=[draw(st.integers(-3, 3)) for _ in range(dim)],
    )


def brute(box, p, q):
    """Minimum over explicit translations."""
    res = 0.
    for a, b, size in zip(p, q, box.size):
        diff = b - a
        if box.periodic:
            base = math.floor(diff / size)
            diff = min(
                abs(diff - (base + k) * size) for k in (-2, -1, 0, 1, 2)
            )
        res += diff * diff
    return math.sqrt(res)


def run_case(case):
    box = Box(case['limits'], case['periodic'])
    cs = CoordinateSystem(
        limits=[tuple(x) for x in case['limits']], periodic=case['periodic']
    )
    pts = [np.array(p, dtype=float) for p in case['positions']]
    tol = 1e-9 * max(
        [abs(x) for p in pts for x in p] + box.size +
        [abs(x) for x in box.lo + box.hi]
    )

    def dist(a, b, system=cs):
        res = system.distance(a, b)
        require(np.ndim(res) == 0, 'distance of two positions is {}', res)
        return float(res)

    labels = ['periodic' if box.periodic else 'open', 'dim%d' % box.dim]
    wraps = False
    for i, p in enumerate(pts):
        for q in pts[i:]:
            ref = brute(box, p, q)
            got = dist(p, q)
            require(
                abs(got - ref) <= tol, 'distance {} -> {} is {}, expected {}',
                list(p), list(q), got, ref
            )
            require(
                abs(dist(q, p) - got) <= tol, 'distance is not symmetric'
            )
            plain = math.sqrt(sum((a - b)**2 for a, b in zip(p, q)))
            if plain > ref + tol:
                wraps = True
            if box.periodic:
                shifted = q + np.array(case['shift']) * np.array(box.size)
                require(
                    abs(dist(p, shifted) - got) <= tol,
                    'distance changes by a lattice translation'
                )
                shifted = p + np.array(case['shift']) * np.array(box.size)
                require(
                    abs(dist(shifted, q) - got) <= tol,
                    'distance changes by a lattice translation'
                )
                require(
                    dist(p, shifted) <= tol,
                    'distance to an equivalent position is not zero'
                )
        require(dist(p, p) == 0, 'distance to itself is not zero')
    if len(pts) >= 3:
        a, b, c = pts[:3]
        require(
            dist(a, c) <= dist(a, b) + dist(b, c) + 3 * tol,
            'triangle inequality does not hold'
        )
    flipped = CoordinateSystem(
        limits=[tuple(x[::-1]) for x in case['limits']],
        periodic=case['periodic']
    )
    require(
        abs(dist(pts[0], pts[1], flipped) - dist(pts[0], pts[1])) <= tol,
        'distance depends on the order of the limits'
    )
    # broadcasting
    many = np.array(pts)
    for p in pts:
        for got in (cs.distance(p, many), cs.distance(many, p)):
            require(
                np.shape(got) == (len(pts), ), 'wrong shape {}', np.shape(got)
            )
            for val, q in zip(got, pts):
                require(
                    abs(float(val) - brute(box, p, q)) <= tol,
                    'distances to several positions are wrong'
                )
    got = cs.distance(many, many[::-1])
    require(np.shape(got) == (len(pts), ), 'wrong shape {}', np.shape(got))
    for val, p, q in zip(got, pts, pts[::-1]):
        require(
            abs(float(val) - brute(box, p, q)) <= tol,
            'pairwise distances are wrong'
        )
    if wraps:
        labels.append('wraps')
    different = any(
        list(p) != list(q) for p in pts for q in pts
    )
    return Report(different and (wraps or not box.periodic), labels)


# -- many positions -----------------------------------------------------------

@st.composite
def array_cases(draw):
    case = draw(cases(num_pos=1))
    return dict(
        case, num=draw(st.sampled_from([20, 100, 500, 3000])),
        spread=draw(st.sampled_from([1., 3., 0.1])),
        layout=draw(st.sampled_from(['C', 'F', 'strided'])),
        seed=draw(st.integers(0, 2**32)),
    )


def make_array(case):
    rng = np.random.default_rng(case['seed'])
    box = Box(case['limits'], case['periodic'])
    pts = np.array(box.lo) + np.array(box.size) * (
        0.5 + case['spread'] * rng.uniform(-1, 1, (case['num'], box.dim))
    )
    if case['layout'] == 'F':
        pts = np.asfortranarray(pts)
    elif case['layout'] == 'strided':
        pts = np.repeat(pts, 2, axis=0)[::2]
    return pts, rng


def run_array(case):
    box = Box(case['limits'], case['periodic'])
    cs = CoordinateSystem(
        limits=[tuple(x) for x in case['limits']], periodic=case['periodic']
    )
    pts, rng = make_array(case)
    copy = pts.copy()
    one = np.array(case['positions'][0])
    tol = 1e-9 * max(
        [float(np.abs(pts).max()), float(np.abs(one).max())] + box.size +
        [abs(x) for x in box.lo + box.hi]
    )
    expected = box.dist_many(one, pts)
    for got in (cs.distance(one, pts), cs.distance(pts, one)):
        require(
            np.shape(got) == (len(pts),) and
            np.all(np.abs(np.asarray(got) - expected) <= tol),
            'distances to {} positions are wrong', len(pts)
        )
    perm = rng.permutation(len(pts))
    got = cs.distance(pts, pts[perm])
    expected = [box.dist(p, q) for p, q in zip(pts, pts[perm])]
    require(
        np.shape(got) == (len(pts),) and
        np.all(np.abs(np.asarray(got) - expected) <= tol),
        'pairwise distances of {} positions are wrong', len(pts)
    )
    require(np.array_equal(pts, copy), 'positions were modified')
    return Report(True, ['periodic' if box.periodic else 'open'])


SUBS = [
    Sub('arrays', array_cases(), run_array, 160, 4000),
    Sub('metric', cases(), run_case, 6000, 120000),
]
