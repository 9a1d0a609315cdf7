"""C05: every starting simplex is run once, or rightly skipped."""
import random

from common import *
from checks.c03_soundness import make_result

ID = 'C05'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing of whole searches against a set oracle'
NOTE = (
    'The starting simplices of all minimizations of random searches are '
    'compared to the mesh and stencils around refined positions. That a '
    'simplex was rightly started is decided for sequential searches, that it '
    'was rightly skipped for the final set of nodes.'
)
RULE = (
    'Random searches with mesh, random and automatic stencils, also with '
    'repeated simplices (vertices in any order). known: searches continued '
    'from states with up to 600 nodes. Non-trivial: there was '
    'refinement and more than two minimizations (known: some simplices were '
    'skipped and others not).'
)
ASSUMPTIONS = [
    'Distances closer than 1e-9 to the cutoff are not decided.'
]


@st.composite
def cases(draw):
    stencil = draw(weighted((5, 'yes'), (1, 'any')))
    case = draw(search_cases(
        stencil=stencil, parallel=draw(weighted((3, 1), (2, None)))
    ))
    dim = len(case['limits'])
    spec = case['stencil']
    if spec is not None and spec['kind'] == 'custom':
        if draw(st.booleans()):
            # simplex close to the refined position
            origin = [draw(st.sampled_from([0., 0., 0.25, -0.5, 0.75]))
                      for _ in range(dim)]
            edge = draw(st.sampled_from([0.25, 0.5, 1., 1.5]))
            spec['simplices'].append([origin] + [
                [o + (edge if i == j else 0.) for j, o in enumerate(origin)]
                for i in range(dim)
            ])
        if draw(weighted((1, True), (3, False))):
            again = draw(st.permutations(draw(
                st.sampled_from(spec['simplices'])
            )))
            spec['simplices'].append([list(v) for v in again])
    return case


def canonical(simplex):
    return np.array(sorted(tuple(float(x) for x in v) for v in simplex))


def close(simplex, others, tol):
    """Indices of the simplices which are equal, in any order of vertices."""
    if not len(others):
        return []
    diff = np.abs(
        others[:, :, None, :] - np.asarray(simplex)[None, None, :, :]
    ).max(axis=-1)
    # every vertex must have a partner
    ok = (diff.min(axis=1) <= tol).all(axis=1) & (
        diff.min(axis=2) <= tol).all(axis=1)
    return np.flatnonzero(ok).tolist()


def run_case(case):
    result, gap = run_search(case)
    return check_started(case, result, gap)


def check_started(case, result, gap=None, queued=(), again=0):
    """
    The started simplices. The sequence is checked if a gap is given.

    queued : Simplices which are still to be run.
    again : How many additional times the mesh can have been run.
    """
    box = Box(case['limits'], case['periodic'])
    dim = box.dim
    cutoff = case['feature_size'] / CUTOFF_FACTOR
    results = list(result.minimization_results)
    scale = max(box.scale(), cutoff, *(abs(x) for x in box.lo + box.hi))
    tol = 1e-9 * scale
    expected = [canonical(s) for s in reference_mesh(
        case['limits'], case['mesh'], case['periodic']
    )]
    num_mesh = len(expected)
    refined = [
        np.array([float(x) for x in pos]) for pos in result.refined_results
    ]
    if refined:
        stencil = stencil_array(case['stencil'], dim)
        for pos in refined:
            for simplex in stencil:
                expected.append(canonical(pos + simplex * cutoff))
    # merge equal simplices
    exp_arr = np.array(expected)
    started = [0] * len(expected)
    for simplex in [first_simplex(r) for r in results] + list(queued):
        idx = close(simplex, exp_arr, tol)
        require(
            idx, 'minimization started from {}, which is not a simplex of '
            'mesh or stencil', np.asarray(simplex).tolist()
        )
        for i in idx:
            started[i] += 1
    nodes = [n.pos for n in result.nodes]
    skipped = 0
    for i, (simplex, num) in enumerate(zip(expected, started)):
        if num == 1:
            continue
        if num > 1:
            # Simplices which differ by rounding errors count as different.
            same = close(simplex, exp_arr, tol)
            variants = set(map(tuple, (
                expected[j].ravel().tolist() for j in same
            )))
            require(
                num <= len(variants) + (again if min(same) < num_mesh else 0),
                'simplex {} was run {} times',
                simplex.tolist(), num
            )
            continue
        skipped += 1
        count = sum(
            bool(nodes) and np.min(box.dist_many(v, nodes)) < cutoff + tol
            for v in simplex
        )
        require(
            count > case['simplex_check_cutoff'],
            'simplex {} was not run, but only {} of its vertices are close to '
            'nodes ({} allowed)', simplex.tolist(), count,
            case['simplex_check_cutoff']
        )
    labels = ['parallel' if case['parallel'] > 1 else 'sequential']
    if skipped:
        labels.append('skipped')
    if skipped and any(not n for n in started[:num_mesh]):
        labels.append('skipped-mesh')
    if case['fake']:
        labels.append('fake')
    if case['parallel'] == 1 and gap is not None:
        check_sequence(case, box, results, gap, cutoff, tol)
    return Report(
        refined and len(results) > 2, labels,
        dict(minimizations=len(results), skipped=skipped,
             refined=len(refined))
    )


def check_sequence(case, box, results, gap, cutoff, tol):
    """Started simplices are not too close to the nodes found before."""
    left = {}
    for res in results:
        key = tuple(sorted(map(tuple, first_simplex(res).tolist())))
        left.setdefault(key, []).append(res)
    idx = 0
    nodes = []
    while idx < len(gap.calls):
        simplex = tuple(sorted(gap.calls[idx:idx + box.dim + 1]))
        found = left.get(simplex)
        require(
            found, 'evaluation {} does not belong to a starting simplex, '
            'although only one minimization is allowed at a time', idx
        )
        count = 0
        for vertex in simplex:
            if nodes:
                dist = box.dist_many(vertex, nodes)
                count += bool(np.any(dist < cutoff - tol))
        require(
            count <= case['simplex_check_cutoff'],
            'simplex {} was run although {} of its vertices are close to nodes '
            'found before ({} allowed)', simplex, count,
            case['simplex_check_cutoff']
        )
        res = found.pop()
        idx += res.num_fev
        if res.success and res.value <= case['threshold']:
            nodes.append([float(x) for x in res.pos])


@st.composite
def large_cases(draw):
    """Automatic and other stencils of many simplices, for few positions."""
    dim = draw(st.sampled_from([3, 3, 4, 2, 1]))
    case = draw(search_cases(
        dims=(dim, ), parallel=draw(weighted((3, 1), (2, None))),
        max_nodes=2, nm=False, lines=False
    ))
    case['mesh'] = [1] * dim
    case['mesh'][draw(st.integers(0, dim - 1))] = draw(st.integers(1, 2))
    sizes = {1: (8, 30), 2: (3, 6), 3: (2, 4), 4: (2, 3)}[dim]
    case['stencil'] = draw(st.sampled_from(
        [dict(kind='auto')] * 2 + [dict(
            kind='mesh', mult=2.,
            size=[draw(st.integers(*sizes)) for _ in range(dim)]
        )] + [dict(kind='sphere', num=draw(st.integers(10, 40)))] * (dim == 3)
        + [dict(kind='circle', num=draw(st.integers(6, 30)))] * (dim == 2)
    ))
    # all nodes should be found at the same positions
    min_size = min(abs(b - a) for a, b in case['limits'])
    case['feature_size'] = min_size * draw(floats(0.3, 0.6))
    cutoff = case['feature_size'] / CUTOFF_FACTOR
    for node in case['gap']['nodes']:
        node['power'] = 1
        node['scale'] = max(node['scale'], 20 * case['threshold'] / cutoff)
    case['simplex_check_cutoff'] = draw(
        weighted((2, 0), (1, st.integers(1, dim + 1)))
    )
    case['recheck'] = True
    return case


# -- many known nodes ---------------------------------------------------------

@st.composite
def known_cases(draw):
    """Continue from a state with many nodes and refined positions."""
    box = draw(boxes(dims=(1, 2, 2, 3)))
    dim = len(box['limits'])
    cells = draw(floats(1, {1: 60, 2: 12, 3: 5}[dim]))
    sizes = [abs(b - a) for a, b in box['limits']]
    cutoff = max(
        min(sizes) / cells, max(sizes) / {1: 200, 2: 40, 3: 10}[dim]
    )
    return dict(
        box, feature_size=CUTOFF_FACTOR * cutoff,
        gap=dict(kind='const', value=1.), threshold=0.5,
        mesh=[draw(st.integers(1, {1: 60, 2: 9, 3: 4}[dim]))
              for _ in range(dim)],
        nm=dict(maxfev=1), fake=False,
        stencil=draw(stencils(dim)),
        nodes=draw(st.sampled_from([20, 60, 200, 600])),
        refined=draw(st.sampled_from([0, 20, 100, 300])),
        pending=draw(st.sampled_from([0, 20, 60, 200])),
        spread=draw(st.sampled_from([1., 1., 0.3, 1.3])),
        simplex_check_cutoff=draw(weighted((3, 0), (1, st.integers(1, dim)))),
        recheck=draw(weighted((4, True), (1, False))),
        recheck_count=draw(weighted((2, 0), (1, st.integers(1, 12)))),
        parallel=draw(st.sampled_from([1, 10, 50])),
        force=draw(st.booleans()), seed=draw(st.integers(0, 2**32)),
    )


def run_state(case):
    """
    Returns the positions of the nodes, the refined positions before, those
    pending, and the outcome of the search. No further nodes are found.
    """
    rng = random.Random(case['seed'])
    box = Box(case['limits'], case['periodic'])
    center = [rng.random() for _ in range(box.dim)]

    def position():
        return tuple(
            lo + s * (
                rng.random() if case['spread'] == 1
                else c + case['spread'] * (rng.random() - 0.5)
            ) for lo, s, c in zip(box.lo, box.size, center)
        )

    nodes = [position() for _ in range(case['nodes'])]
    refined = [position() for _ in range(case['refined'])]
    cont = SearchResultContainer(
        coordinate_system=CoordinateSystem(
            limits=[tuple(x) for x in case['limits']],
            periodic=case['periodic']
        ), minimization_results=[make_result(p, 0.25) for p in nodes],
        gap_threshold=case['threshold'],
        dist_cutoff=case['feature_size'] / CUTOFF_FACTOR,
        refined_results=[np.array(p) for p in refined]
    )
    pending = [
        tuple(map(float, n.pos))
        for n in rng.sample(list(cont.nodes), min(
            len(nodes), case['pending'] if case['stencil'] is not None else 0
        ))
    ]
    mesh = reference_mesh(case['limits'], case['mesh'], case['periodic'])
    state = ControllerState(
        result=cont, simplex_queue=SimplexQueue(
            objects=[] if case['force'] else mesh
        ), position_queue=PositionQueue(objects=pending)
    )
    result, gap = run_search(
        case, initial_state=state, force_initial_mesh=case['force']
    )
    require(
        len(result.nodes) == len(nodes), '{} nodes instead of {}',
        len(result.nodes), len(nodes)
    )
    return nodes, refined, pending, result, gap


def run_known(case):
    box = Box(case['limits'], case['periodic'])
    cutoff = case['feature_size'] / CUTOFF_FACTOR
    nodes, refined, _, result, gap = run_state(case)
    tol = 1e-9 * max(box.scale(), cutoff, *(abs(x) for x in box.lo + box.hi))
    expected = [canonical(s) for s in reference_mesh(
        case['limits'], case['mesh'], case['periodic']
    )]
    after = [tuple(map(float, p)) for p in result.refined_results]
    for pos in after[len(refined):]:
        for simplex in stencil_array(case['stencil'], box.dim):
            expected.append(canonical(np.array(pos) + simplex * cutoff))
    exp_arr = np.array(expected)
    started = [0] * len(expected)
    for res in result.rejected_results:
        idx = close(first_simplex(res), exp_arr, tol)
        require(
            idx, 'minimization started from {}, which is not a simplex of '
            'mesh or stencil', first_simplex(res).tolist()
        )
        for i in idx:
            started[i] += 1
    skipped = 0
    for simplex, num in zip(expected, started):
        dists = [np.min(box.dist_many(v, nodes)) for v in simplex]
        fewest = sum(d < cutoff - tol for d in dists)
        most = sum(d < cutoff + tol for d in dists)
        require(
            num or most > case['simplex_check_cutoff'],
            'simplex {} was not run, but only {} of its vertices are close to '
            'nodes', simplex.tolist(), most
        )
        require(
            not num or fewest <= case['simplex_check_cutoff'],
            'simplex {} was run, although {} of its vertices are close to '
            'nodes', simplex.tolist(), fewest
        )
        skipped += not num
        if num > 1:
            same = close(simplex, exp_arr, tol)
            variants = set(map(tuple, (
                expected[j].ravel().tolist() for j in same
            )))
            require(
                num <= len(variants), 'simplex {} was run {} times',
                simplex.tolist(), num
            )
    return Report(
        0 < skipped < len(expected), ['force' if case['force'] else 'queue'],
        dict(skipped=skipped, minimizations=len(result.rejected_results))
    )


SUBS = [
    Sub('known', known_cases(), run_known, 640, 16000, shards=16),
    Sub('search', cases(), run_case, 1000, 30000, shards=16),
    Sub('large', large_cases(), run_case, 96, 2000, shards=16),
]
