"""C16: the position of nodal points."""
import random

from common import *
from checks.c13_dimension import identify

ID = 'C16'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing against an independent periodic average'
NOTE = (
    'Clusters around random centers (also at the periodic boundary) are '
    'identified, and their average compared to that of the displacements; it '
    'must not change with the order, and with moving positions by whole box '
    'lengths.'
)
RULE = (
    'Boxes of 1-4 dimensions in different units, up to 250 (sub "large": 1100) '
    'positions. Non-trivial: a periodic '
    'cluster whose positions are on both sides of the boundary of the box.'
)
ASSUMPTIONS = [
    'Clusters extend over less than half of the box; compared to a relative '
    'accuracy of 1e-9.'
]


@st.composite
def cases(draw):
    dim = draw(weighted((2, 1), (3, 2), (3, 3), (1, 4)))
    unit = draw(st.sampled_from([1., 1., 1e-3, 1e3, 2.**-20]))
    limits = []
    for _ in range(dim):
        lo = draw(st.one_of(dyadic(-4, 4, 2), floats(-10, 10)))
        size = draw(st.one_of(dyadic(0.5, 4, 2), floats(0.5, 4)))
        lim = [lo * unit, (lo + size) * unit]
        if draw(weighted((3, False), (1, True))):
            lim.reverse()
        limits.append(lim)
    offs = st.lists(
        st.one_of(floats(-1, 1), dyadic(-1, 1, 2)), min_size=dim, max_size=dim
    )
    return dict(
        limits=limits, periodic=draw(weighted((3, True), (1, False))),
        center=[draw(weighted(
            (2, floats(0, 1)), (2, st.sampled_from([0., 1., 0.01, 0.99, 0.5]))
        )) for _ in range(dim)],
        offsets=draw(st.lists(offs, min_size=1, max_size=12)),
        # further positions with random offsets
        more=draw(weighted((4, 0), (1, st.integers(1, 250)))),
        # largest displacement, relative to the box
        width=draw(st.one_of(floats(0, 0.23), floats(0, 0.02))),
        seed=draw(st.integers(0, 10**6)),
        fold=draw(weighted((3, True), (1, False))),
    )


def run_case(case):
    box = Box(case['limits'], case['periodic'])
    rng = random.Random(case['seed'])
    cs = CoordinateSystem(
        limits=[tuple(x) for x in case['limits']], periodic=case['periodic']
    )
    tol = 1e-9 * max(box.size + [abs(x) for x in box.lo + box.hi])
    center = [lo + s * c for lo, s, c in zip(box.lo, box.size, case['center'])]
    plain = [
        [c + case['width'] * s * o for c, s, o in zip(center, box.size, off)]
        for off in case['offsets'] + [
            [rng.uniform(-1, 1) for _ in range(box.dim)]
            for _ in range(case['more'])
        ]
    ]

    def fold(p):
        return [(x - lo) % s + lo for x, lo, s in zip(p, box.lo, box.size)]

    def mean(points):
        return [math.fsum(p[i] for p in points) / len(points)
                for i in range(box.dim)]

    def check(got, exp, what):
        got = [float(x) for x in got]
        require(len(got) == box.dim, '{}: position {}', what, got)
        require(
            box.dist(got, exp) <= tol, '{}: average {} instead of {}', what,
            got, exp
        )
        if case['periodic']:
            require(
                all(lo - tol <= x <= hi + tol
                    for x, lo, hi in zip(got, box.lo, box.hi)),
                '{}: average {} is outside of the limits', what, got
            )

    pts = plain
    if case['periodic'] and case['fold']:
        pts = [fold(p) for p in plain]
    expected = mean(plain)
    check(cs.average([np.array(p) for p in pts]), expected, 'average')
    check(cs.average(np.array(pts)), expected, 'average of an array')
    shuffled = list(pts)
    rng.shuffle(shuffled)
    check(cs.average([np.array(p) for p in shuffled]), expected, 'shuffled')
    if case['periodic']:
        moved = [
            np.array([x + s * rng.randint(-2, 2)
                      for x, s in zip(p, box.size)]) for p in shuffled
        ]
        check(cs.average(moved), expected, 'moved by whole box lengths')
    # through the identification: a single point for narrow clusters
    width = case['width'] * max(box.size)
    fs = 40 * width * math.sqrt(box.dim) + 1e-3 * min(box.size)
    limit = 0.9 * min(box.size)
    labels = []
    if fs < limit:
        for i, group in enumerate([pts, shuffled]):
            res = identify(
                [tuple(p) for p in group], cs.limits, case['periodic'], fs,
                case['seed'] + i
            )
            require(
                len(res) == 1 and res[0].dimension == 0,
                'cluster much narrower than the feature size is {}', res
            )
            unique = [list(p) for p in set(map(tuple, group))]
            back = {tuple(p): q for p, q in zip(pts, plain)}
            check(
                res[0].shape.position,
                mean([back[tuple(p)] for p in unique]), 'nodal point'
            )
        labels.append('identified')
    crossing = case['periodic'] and any(
        max(p[i] for p in pts) - min(p[i] for p in pts) > 0.5 * box.size[i]
        for i in range(box.dim)
    )
    return Report(crossing, labels)


@st.composite
def large_cases(draw):
    """Many positions."""
    return dict(draw(cases()), more=draw(st.sampled_from([300, 600, 1100])))


SUBS = [
    Sub('large', large_cases(), run_case, 32, 800, shards=16),
    Sub('points', cases(), run_case, 3200, 80000),
]
