"""C06: refinement covers all nodes without overlap, and terminates."""
from common import *
from checks import c05_starting as c05

ID = 'C06'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing of whole searches with a covering invariant'
NOTE = (
    'Refined positions and nodes of random searches are checked by brute '
    'force; termination by a generous limit of evaluations and CPU time.'
)
RULE = (
    'points: random searches. dense: sequential searches whose starting '
    'points are nodes within the cutoff of each other. many: everything is '
    'a node, with many starting points. lines: nodal lines and surfaces, which cross '
    'the periodic boundary or leave the non-periodic box. known: searches '
    'continued from states with up to 600 nodes and 100 refined positions. '
    'Non-trivial: more '
    'than two refined positions, and more nodes than refined positions.'
)
ASSUMPTIONS = [
    'Distances closer than 1e-9 to the cutoff are not decided; not to '
    'terminate means to need more than 400000 evaluations (typical: 2000).'
]


@st.composite
def line_cases(draw):
    case = draw(search_cases(dims=(2, 2, 2, 3), stencil='yes', nm=False))
    dim = len(case['limits'])
    min_size = min(abs(b - a) for a, b in case['limits'])
    rel = draw(floats(0.5, 1.2) if dim < 3 else floats(1.6, 3.))
    case['gap'] = draw(line_gap(dim, case['periodic']))
    case['threshold'] = draw(st.sampled_from([1e-2, 1e-3]))
    case['feature_size'] = rel * min_size
    if case['periodic'] or draw(st.booleans()):
        return case
    # starting simplices lead out of the box
    case['stencil'] = dict(
        kind='mesh', size=[draw(st.sampled_from([1, 2]))] + [1] * (dim - 1),
        mult=draw(st.sampled_from([1.5, 2.5]))
    )
    return case


@st.composite
def dense_cases(draw):
    """Nodes of the initial mesh are within the cutoff of each other."""
    case = draw(search_cases(
        dims=(1, 1, 2), stencil='yes', nm=False, lines=False, parallel=1
    ))
    dim = len(case['limits'])
    case['mesh'] = [
        draw(st.integers(2, {1: 20, 2: 4}[dim])) for _ in range(dim)
    ]
    sizes = [abs(b - a) for a, b in case['limits']]
    spacing = max(s / m for s, m in zip(sizes, case['mesh']))
    case['feature_size'] = CUTOFF_FACTOR * spacing * draw(floats(0.8, 3.5))
    # most starting points are nodes
    case['threshold'] = 100.
    case['nm'] = dict(ftol=100., xtol=100.)
    if draw(st.booleans()):
        # needs some steps
        case['nm']['xtol'] = spacing * draw(st.sampled_from([.2, .05]))
    case['simplex_check_cutoff'] = draw(weighted(
        (3, dim + 1), (1, st.integers(0, dim))
    ))
    case['recheck'] = draw(weighted((3, True), (1, False)))
    case['recheck_count'] = draw(st.integers(0, 4))
    if not case['recheck']:
        case['mesh'] = [min(m, [6, 3][dim - 1]) for m in case['mesh']]
    return case


@st.composite
def many_cases(draw):
    """Many nodes wait for refinement at the same time."""
    dim = draw(st.sampled_from([1, 2, 2]))
    case = draw(search_cases(
        dims=(dim, ), stencil='yes', nm=False, lines=False
    ))
    case['mesh'] = [
        draw(st.integers(*{1: (20, 120), 2: (5, 11)}[dim]))
        for _ in range(dim)
    ]
    sizes = [abs(b - a) for a, b in case['limits']]
    spacing = max(s / m for s, m in zip(sizes, case['mesh']))
    small = min(s / m for s, m in zip(sizes, case['mesh']))
    if small < spacing / 4:
        # avoid a large number of positions in a long box
        lim = case['limits'][0]
        case['limits'] = [[lim[0], lim[1]] for _ in range(dim)]
        spacing = abs(lim[1] - lim[0]) / min(case['mesh'])
    case['feature_size'] = CUTOFF_FACTOR * spacing * draw(floats(0.5, 1.4))
    case['gap'] = dict(kind='const', value=0.)
    case['nm'] = dict(ftol=1., xtol=spacing * draw(
        st.sampled_from([10., .3, .1])
    ))
    if case['stencil']['kind'] == 'auto' or draw(st.booleans()):
        case['stencil'] = dict(kind='mesh', size=[2] * dim, mult=1.5)
    case['simplex_check_cutoff'] = draw(st.sampled_from([0, 0, 1]))
    case['parallel'] = draw(st.sampled_from([1, 5, 20, 50, 100]))
    case['fake'] = False
    case['recheck'] = True
    case['recheck_count'] = draw(weighted((3, 0), (1, 1)))
    return case


def check_left_out(case, result):
    """
    With one minimization at a time, the nodes of the initial mesh are all
    known before the first refinement: each of them is refined, unless it is
    discarded by the recheck.
    """
    box = Box(case['limits'], case['periodic'])
    cutoff = case['feature_size'] / CUTOFF_FACTOR
    tol = 1e-9 * max(
        box.scale(), max(abs(x) for lim in case['limits'] for x in lim)
    )
    mesh = {
        simplex_key(s)
        for s in reference_mesh(case['limits'], case['mesh'], box.periodic)
    }
    refined = np.array(
        [tuple(map(float, p)) for p in result.refined_results]
    ).reshape(-1, box.dim)
    left_out = 0
    for node in result.nodes:
        if simplex_key(first_simplex(node)) not in mesh:
            continue
        if not box.periodic and any(
            not lo <= x <= hi for x, lo, hi in zip(node.pos, box.lo, box.hi)
        ):
            continue
        dists = box.dist_many(node.pos, refined)
        if len(dists) and np.min(dists) <= tol:
            continue
        left_out += 1
        require(
            case['recheck'], 'node {} was not refined, although rechecking '
            'is disabled', list(node.pos)
        )
        num = np.sum(dists < cutoff + tol)
        require(
            num > case['recheck_count'], 'node {} was not refined, although '
            'there are only {} refined positions within the cutoff ({} are '
            'allowed)', list(node.pos), num, case['recheck_count']
        )
    return left_out


def run_case(case):
    gap = LoggedGap(
        make_gap(case['gap'], case['limits'], case['periodic']), limit=400000
    )
    result, _ = run_search(case, gap=gap)
    counts = check_coverage(case, result)
    box = Box(case['limits'], case['periodic'])
    labels = ['periodic' if case['periodic'] else 'box']
    if not case['periodic']:
        outside = [
            n for n in result.nodes if any(
                not lo <= x <= hi for x, lo, hi in zip(n.pos, box.lo, box.hi)
            )
        ]
        if outside:
            labels.append('nodes-outside')
    if not case['recheck']:
        labels.append('no-recheck')
    elif case['recheck_count']:
        labels.append('recheck-count')
    if case['parallel'] == 1 and case['stencil'] is not None:
        if check_left_out(case, result):
            labels.append('left-out')
    return Report(
        counts['refined'] > 2 and counts['nodes'] > counts['refined'], labels,
        dict(counts, evaluations=len(gap.calls))
    )


def run_known(case):
    """Pending positions of a state with many nodes and refined positions."""
    if case['stencil'] is None:
        case = dict(case, stencil=dict(
            kind='mesh', size=[2] * len(case['limits']), mult=2.
        ))
    box = Box(case['limits'], case['periodic'])
    cutoff = case['feature_size'] / CUTOFF_FACTOR
    tol = 1e-9 * max(box.scale(), cutoff, *(abs(x) for x in box.lo + box.hi))
    _, before, pending, result, _ = c05.run_state(case)
    after = [tuple(map(float, p)) for p in result.refined_results]
    require(
        len(after) >= len(before) and all(
            box.dist(p, q) <= tol for p, q in zip(before, after)
        ), 'refined positions of the initial state were lost or moved'
    )
    ref_arr = np.array(after).reshape(-1, box.dim)
    left = set(pending)
    for i in range(len(before), len(after)):
        require(
            after[i] in left, 'refinement at {}, which was not pending',
            after[i]
        )
        left.remove(after[i])
        num = np.sum(box.dist_many(after[i], ref_arr[:i]) < cutoff - tol)
        require(
            not case['recheck'] or num <= case['recheck_count'],
            'refinement at {} with {} earlier ones within the cutoff',
            after[i], num
        )
    for pos in left:
        require(case['recheck'], 'pending position {} not refined', pos)
        num = np.sum(box.dist_many(pos, ref_arr) < cutoff + tol)
        require(
            num > case['recheck_count'], 'pending position {} not refined, '
            'with {} refined positions within the cutoff', pos, num
        )
    return Report(
        left and len(after) > len(before),
        ['recheck' if case['recheck'] else 'no-recheck'],
        dict(left_out=len(left), refined=len(after) - len(before))
    )


SUBS = [
    Sub('known', c05.known_cases().map(
        lambda c: dict(c, pending=max(c['pending'], 20))
    ), run_known, 640, 16000, shards=16),
    Sub('points', search_cases(stencil='yes', lines=False), run_case, 400,
        12000, shards=16),
    Sub('dense', dense_cases(), run_case, 320, 12000, shards=16),
    Sub('many', many_cases(), run_case, 320, 6000, shards=16),
    Sub('lines', line_cases(), run_case, 480, 12000, shards=16),
]
