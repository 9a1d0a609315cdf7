"""C10: neighbour queries agree with brute force."""
import bisect

from common import *
from checks.c03_soundness import make_result

ID = 'C10'
LEVEL = 'exploration'
TECHNIQUE = 'model-based property testing of operation sequences (brute force)'
NOTE = (
    'Random sequences of adding results and refined positions and of queries, '
    'compared to all true distances. Positions include those on cell and box '
    'boundaries and far outside.'
)
RULE = (
    'Boxes of 1-4 dimensions with 1 to 100 cells per dimension (up to 300 '
    'in one dimension), up to 600 nodes. Non-trivial: '
    'a query had both nodes within the cutoff and nodes further away.'
)
ASSUMPTIONS = [
    'Nodes closer than 1e-9 to the cutoff, and those which differ from the '
    'position only by rounding (1e-14) or whole box lengths, may be reported '
    'or not.'
]


@st.composite
def cases(draw):
    box = draw(boxes(dims=(1, 2, 2, 3, 3, 4)))
    dim = len(box['limits'])
    sizes = [abs(b - a) for a, b in box['limits']]
    max_cells = {1: 150, 2: 60, 3: 9, 4: 4}[dim]
    if dim <= 2 and draw(weighted((12, False), (1, True))):
        cutoff = 0.
        cells = 100
    else:
        cells = draw(st.one_of(
            st.integers(1, max_cells), st.sampled_from([1, 2, 3, 4]),
            floats(0.3, min(max_cells, 6))
        ))
        cutoff = min(sizes) / cells
        if dim > 1 and max(sizes) / cutoff > 2 * max_cells:
            cutoff = max(sizes) / (2 * max_cells)

    def frac():
        return st.one_of(
            floats(0, 1), floats(0, 1), floats(-0.5, 1.5), floats(-3, 4),
            st.sampled_from([0., 1., 0.5, -1e-17, 1 - 1e-16, 1e-17]),
            st.integers(-2, 12).map(lambda i: i / max(1, int(cells)))
        )

    pos = st.lists(frac(), min_size=dim, max_size=dim)
    base = draw(st.lists(pos, min_size=1, max_size=4))

    def near():
        # close to one of a few positions, within a few cutoffs
        return st.tuples(
            st.sampled_from(base), st.lists(
                st.one_of(floats(-1.5, 1.5), st.sampled_from([0., 1., -1.])),
                min_size=dim, max_size=dim
            )
        ).map(lambda x: dict(base=x[0], shift=x[1]))

    anypos = st.one_of(
        near(), near(), pos.map(lambda p: dict(base=p, shift=[0.] * dim))
    )
    ops = draw(st.lists(st.tuples(
        st.sampled_from(['node', 'node', 'refined', 'refined', 'query',
                         'query', 'query_node', 'query_near', 'rejected']),
        anypos
    ).map(list), min_size=2, max_size=40))
    ops.append(['query', draw(anypos)])
    return dict(box, cutoff=cutoff, ops=ops)


def compare(kind, got, true, optional, cutoff, tol, query):
    """
    got : returned distances
    true : distances of all nodes
    optional : whether the node may be left out
    """
    got = sorted(float(x) for x in got)
    left = sorted(got)

    def take(dist):
        # (the closest one, since others can be within the tolerance)
        idx = bisect.bisect(left, dist)
        best = min(
            (i for i in (idx - 1, idx) if 0 <= i < len(left)),
            key=lambda i: abs(left[i] - dist), default=None
        )
        if best is None or abs(left[best] - dist) > tol:
            return False
        del left[best]
        return True

    for dist, opt in zip(true, optional):
        if dist < cutoff - tol and opt is False:
            require(
                take(dist), '{}: neighbour at distance {} (cutoff {}) of {} '
                'was not reported ({} reported)', kind, dist, cutoff, query,
                got
            )
    for dist, opt in zip(true, optional):
        if opt is None or (dist < cutoff - tol and opt is False):
            continue
        take(dist)
    require(
        not left, '{}: reported distances {} of {} do not belong to nodes, or '
        'were reported twice (cutoff {})', kind, left, query, cutoff
    )


def run_case(case):
    box = Box(case['limits'], case['periodic'])
    cutoff = case['cutoff']
    cont = SearchResultContainer(
        coordinate_system=CoordinateSystem(
            limits=[tuple(x) for x in case['limits']],
            periodic=case['periodic']
        ),
        gap_threshold=0.5, dist_cutoff=cutoff
    )
    nodes, refined = [], []
    nontrivial = False
    labels = set()
    for op, spec in case['ops']:
        pos = np.array([
            lo + f * size + cutoff * s for lo, f, size, s in
            zip(box.lo, spec['base'], box.size, spec['shift'])
        ])
        scale = max(
            [box.scale(), cutoff] + [abs(float(x)) for x in pos] +
            [abs(x) for x in box.lo + box.hi]
        )
        tol = 1e-9 * scale
        if op == 'node':
            res = make_result(pos, 0.1)
            cont.add_result(res)
            nodes.append(res)
        elif op == 'rejected':
            cont.add_result(make_result(pos, 0.9))
        elif op == 'refined':
            if nodes and spec['shift'][0] == 0:
                pos = np.array(nodes[-1].pos)
            elif case['periodic'] and len(refined) % 2:
                pos = cont.coordinate_system.normalize_position(pos)
            cont.set_refined(pos)
            refined.append(pos.copy())
        else:
            if op == 'query_node' and nodes:
                pos = np.array(nodes[len(nodes) // 2].pos)
            elif op == 'query_near' and nodes:
                # almost at a node
                num = len(nodes)
                pos = np.array(nodes[num // 2].pos)
                pos[num % len(pos)] += (-1)**num * scale * 10.**-(
                    10 + num % 4
                )
            query = [float(x) for x in pos]
            true = [box.dist(pos, n.pos) for n in nodes]
            # None: must not be reported
            optional = [
                None if [float(x) for x in n.pos] == query else
                d <= 1e-14 * scale
                for n, d in zip(nodes, true)
            ]
            compare(
                'nodes', cont.get_neighbour_distance_iterator(pos), true,
                optional, cutoff, tol, query
            )
            compare(
                'all nodes', cont.get_all_neighbour_distances(pos), true,
                optional, cutoff, tol, query
            )
            compare(
                'vertex', cont.get_neighbour_distance_iterator(tuple(query)),
                true, optional, cutoff, tol, query
            )
            true_ref = [box.dist(pos, p) for p in refined]
            compare(
                'refined positions',
                cont.get_refined_neighbour_distance_iterator(pos), true_ref,
                [False] * len(true_ref), cutoff, tol, query
            )
            for dists in (true, true_ref):
                if dists and min(dists) < cutoff < max(dists):
                    nontrivial = True
            if None in optional:
                labels.add('at-node')
    labels.add('periodic' if case['periodic'] else 'box')
    return Report(nontrivial, sorted(labels))


@st.composite
def border_cases(draw):
    """Pairs at almost the cutoff, next to possible borders of cells."""
    box = draw(boxes(dims=(1, 1, 2)))
    dim = len(box['limits'])
    ratio = draw(floats(0.6, 14))
    cutoff = min(abs(b - a) for a, b in box['limits']) / ratio
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        axis = draw(st.integers(0, dim - 1))
        lim = box['limits'][axis]
        cells = max(1, math.floor(abs(lim[1] - lim[0]) / cutoff)) + draw(
            st.sampled_from([0, 0, 1, -1])
        )
        base = [draw(floats(0, 1)) for _ in range(dim)]
        base[axis] = (
            draw(st.integers(0, max(1, cells))) +
            draw(st.sampled_from([1e-9, -1e-9, 1e-3, -1e-3, 0.02, -0.02]))
        ) / max(1, cells)
        shift = [0.] * dim
        kind = draw(st.sampled_from(['node', 'refined']))
        ops.append([kind, dict(base=base, shift=list(shift))])
        for _ in range(draw(st.integers(1, 3))):
            shift[axis] = draw(st.sampled_from([1, -1])) * (
                1 - draw(st.sampled_from([1e-6, 1e-3, 0.01, 0.05]))
            )
            ops.append(['query', dict(base=base, shift=list(shift))])
    return dict(box, cutoff=cutoff, ops=ops)


@st.composite
def many_cases(draw):
    box = draw(boxes(dims=(1, 2, 2, 3)))
    dim = len(box['limits'])
    return dict(
        box, cells=draw(st.one_of(
            floats(0.5, 4), floats(1, {1: 300, 2: 50, 3: 8}[dim])
        )),
        nodes=draw(st.sampled_from([60, 130, 300, 600])),
        refined=draw(st.sampled_from([0, 60, 150, 300])),
        spread=draw(st.sampled_from([1., 1., 1.5, 0.2])),
        seed=draw(st.integers(0, 2**32)),
    )


def run_many(case):
    """Hundreds of nodes."""
    rng = np.random.default_rng(case['seed'])
    dim = len(case['limits'])
    sizes = [abs(b - a) for a, b in case['limits']]
    cutoff = max(min(sizes) / case['cells'], max(sizes) / 300)
    if dim > 1:
        cutoff = max(cutoff, max(sizes) / {2: 100, 3: 15}[dim])
    center = rng.uniform(0, 1, dim)
    kinds = ['node'] * case['nodes'] + ['refined'] * case['refined'] + [
        'rejected'] * 20 + ['query', 'query_node', 'query_near'] * 12
    rng.shuffle(kinds)
    ops = [
        [str(kind), dict(
            base=(
                0.5 + case['spread'] * (rng.uniform(0, 1, dim) - 0.5)
                + (center if case['spread'] < 1 else 0)
            ).tolist(), shift=[0.] * dim
        )] for kind in kinds
    ]
    ops += [['query', ops[rng.integers(len(ops))][1]] for _ in range(30)]
    return run_case(dict(case, cutoff=cutoff, ops=ops))


SUBS = [
    Sub('many', many_cases(), run_many, 96, 3000, shards=16),
    Sub('queries', cases(), run_case, 4800, 100000),
    Sub('borders', border_cases(), run_case, 2400, 50000),
]
