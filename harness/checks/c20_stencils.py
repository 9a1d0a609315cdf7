"""C20: geometry of the initial meshes and refinement stencils."""
from common import *

ID = 'C20'
LEVEL = 'exploration'
TECHNIQUE = (
    'property-based testing of meshes and stencils against a reference '
    'construction and geometric invariants'
)
NOTE = (
    'The simplices from which searches with random boxes and mesh sizes start '
    'are compared to a reference mesh, and those of stencils for (thorough: '
    'all) numbers of points up to 200 are checked for the stated invariants.'
)
RULE = (
    'mesh: the starting simplices of a search which stops at the first step, '
    'in one to five dimensions. stencil: mesh stencils, and the automatic '
    'stencil as used by a search with a node. round: circle and sphere '
    'stencils. Non-trivial: more than one simplex.'
)
ASSUMPTIONS = [
    'Evenly spread means that neighbours of sphere stencils are separated by '
    'at least 0.9, and that no direction is further than 3.7 from the next '
    'one, in units of the square root of the solid angle per point '
    '(1 / sqrt(n) radians).'
]


def match(actual, expected, tol, what):
    """Compare the simplices, irrespective of their order."""
    require(
        len(actual) == len(expected), '{} simplices in the {}, expected {}',
        len(actual), what, len(expected)
    )
    left = [np.array(sorted(map(tuple, np.asarray(s).tolist())))
            for s in expected]
    used = np.zeros(len(left), dtype=bool)
    if not left:
        return
    first = np.array([s[0] for s in left])
    for simplex in actual:
        arr = np.asarray(simplex, dtype=float)
        require(
            arr.shape == left[0].shape, 'simplex of shape {}, expected {}',
            arr.shape, left[0].shape
        )
        low = arr.min(axis=0)
        cand = np.flatnonzero(
            ~used & (np.abs(first - low).max(axis=1) <= tol)
        )
        ok = None
        for i in cand:
            diff = np.abs(arr[:, None] - left[i][None]).max(axis=-1)
            if (diff.min(axis=0) <= tol).all() and (
                diff.min(axis=1) <= tol
            ).all():
                ok = i
                break
        require(
            ok is not None, 'simplex {} of the {} is not expected, or '
            'repeated', arr.tolist(), what
        )
        used[ok] = True


# -- initial mesh -----------------------------------------------------------

@st.composite
def mesh_cases(draw):
    dim = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5]))
    case = draw(boxes(dims=(dim,)))
    kind = draw(st.sampled_from(['tuple', 'list', 'int', 'array', 'npint']))
    top = {1: 30, 2: 9, 3: 5, 4: 3, 5: 2}[dim]
    if kind in ('int', 'npint'):
        size = draw(st.integers(1, top))
    else:
        size = [draw(st.integers(1, top)) for _ in range(dim)]
    unit = draw(weighted((3, 1.), (1, st.sampled_from([
        2.**-40, 2.**-20, 2.**-10, 2.**12]))))
    case['limits'] = [[a * unit, b * unit] for a, b in case['limits']]
    case.update(
        kind=kind, size=size,
        limkind=draw(st.sampled_from(['tuple', 'list', 'array'])),
        stop=draw(st.sampled_from(['maxfev', 'maxiter'])),
        parallel=draw(st.sampled_from([1, 7, 1000])),
        force=draw(weighted((4, False), (1, True))),
    )
    return case


def run_mesh(case):
    dim = len(case['limits'])
    size = case['size']
    kind = case['kind']
    full = [size] * dim if kind in ('int', 'npint') else size
    mesh = {
        'tuple': tuple, 'list': list, 'int': int, 'array': np.array,
        'npint': np.int64
    }[kind](size)
    limits = {
        'tuple': lambda l: tuple(map(tuple, l)), 'list': list,
        'array': np.array
    }[case['limkind']](case['limits'])
    calls = []

    def gap(pos):
        calls.append(tuple(float(x) for x in pos))
        return 1. + 0.125 * len(calls)

    result = run(
        gap, limits=limits, periodic=case['periodic'], initial_mesh_size=mesh,
        refinement_stencil=None, simplex_check_cutoff=dim + 1,
        nelder_mead_kwargs={case['stop']: 1}, gap_threshold=1e-3,
        feature_size=max(abs(b - a) for a, b in case['limits']),
        num_minimize_parallel=case['parallel'],
        force_initial_mesh=case['force']
    )
    results = list(result.minimization_results)
    box = Box(case['limits'], case['periodic'])
    tol = 1e-11 * max(box.scale(), *(abs(x) for x in box.lo + box.hi))
    expected = reference_mesh(case['limits'], full, case['periodic'])
    match([first_simplex(r) for r in results], expected, tol, 'initial mesh')
    require(
        len(calls) == len(expected) * (dim + 1),
        '{} evaluations for {} simplices', len(calls), len(expected)
    )
    num = {}
    for call in calls:
        key = tuple(round(x / (16 * tol)) for x in call)
        num[key] = num.get(key, 0) + 1
    # every vertex of a periodic mesh is inside the box
    if case['periodic']:
        for call in calls:
            for x, lo, hi in zip(call, box.lo, box.hi):
                require(
                    lo - tol <= x <= hi - tol,
                    'vertex {} of the periodic mesh is outside of the box',
                    call
                )
    return Report(
        len(expected) > 1,
        ['dim{}'.format(dim), kind,
         'periodic' if case['periodic'] else 'open']
        + (['reversed'] if any(a > b for a, b in case['limits']) else [])
        + (['single'] if 1 in full else []),
        dict(simplices=len(expected))
    )


# -- mesh and automatic stencils --------------------------------------------

@st.composite
def stencil_cases(draw):
    what = draw(weighted((3, 'mesh'), (1, 'auto'), (1, 'search')))
    if what == 'mesh':
        dim = draw(st.sampled_from([1, 2, 2, 3, 4]))
        top = {1: 25, 2: 9, 3: 5, 4: 4}[dim]
        return dict(
            what=what, size=[draw(st.integers(1, top)) for _ in range(dim)],
            mult=draw(st.one_of(
                st.none(), floats(0.5, 10), floats(0.5, 10),
                st.sampled_from([1e-3, 1e-4, 1e3, 1e6])
            ))
        )
    dim = draw(st.sampled_from(
        [1, 2, 3, 4, 5] if what == 'auto' else [1, 1, 2, 2, 2, 3, 3, 4]
    ))
    case = dict(what=what, dim=dim)
    if what == 'search':
        case['feature_size'] = draw(st.sampled_from(
            [0.3, 0.1, 0.01] if dim < 3 else [0.4, 0.25]
        ))
        case['node'] = [draw(floats(0.3, 0.7)) for _ in range(dim)]
        case['default'] = draw(st.booleans())
    return case


def reference_stencil(size, mult):
    mesh = reference_mesh([[-mult, mult]] * len(size), size, False)
    return [s for s in mesh if np.abs(s[0]).max() > 1e-9 * mult]


def check_auto(actual, dim, tol):
    """The automatic stencil, in units of the cutoff."""
    num = {2: 5, 3: 30}.get(dim)
    if num is None:
        match(actual, reference_stencil([3] * dim, 2.5), tol, 'auto stencil')
    else:
        require(
            len(actual) == num, 'auto stencil of {} simplices', len(actual)
        )
        func = {2: check_circle, 3: check_sphere}[dim]
        func(np.asarray(actual, dtype=float), tol)
    closest = min(
        math.sqrt(sum(float(x)**2 for x in v)) for s in actual for v in s
    )
    require(
        closest > 1 + 1e-6, 'auto stencil has a vertex at distance {}',
        closest
    )


def run_stencil(case):
    ref = nf.search.refinement_stencil
    what = case['what']
    if what == 'mesh':
        kwargs = {}
        if case['mult'] is not None:
            kwargs['dist_multiplier'] = case['mult']
        actual = ref.get_mesh_stencil(mesh_size=case['size'], **kwargs)
        mult = 2.5 if case['mult'] is None else case['mult']
        expected = reference_stencil(case['size'], mult)
        match(actual, expected, 1e-12 * mult, 'mesh stencil')
        total = 1
        for num in case['size']:
            total *= num
        return Report(
            len(expected) > 1,
            [what, 'origin' if len(expected) < total else 'no-origin']
        )
    dim = case['dim']
    if what == 'auto':
        check_auto(ref.get_auto_stencil(dim=dim), dim, 1e-11)
        return Report(True, [what, 'dim{}'.format(dim)])
    # the stencil which is used by the search
    node = np.array(case['node'])
    kwargs = {} if case['default'] else dict(refinement_stencil='auto')
    result = run(
        lambda pos: float(np.sqrt(((pos - node)**2).sum())),
        limits=[(0, 1)] * dim, periodic=False, initial_mesh_size=1,
        gap_threshold=1e-4, feature_size=case['feature_size'],
        simplex_check_cutoff=dim + 1, num_minimize_parallel=1, **kwargs
    )
    cutoff = case['feature_size'] / CUTOFF_FACTOR
    results = list(result.minimization_results)
    refined = [np.array(p, dtype=float) for p in result.refined_results]
    if len(refined) != 1:
        # the first minimization did not end at the node, or several did
        return Report(False, [what, 'refined{}'.format(min(len(refined), 2))])
    stencil = [
        (first_simplex(r) - refined[0]) / cutoff for r in results
    ]
    start = reference_mesh([(0, 1)] * dim, [1] * dim, False)[0]
    rest = [
        s for s, r in zip(stencil, results)
        if simplex_key(first_simplex(r)) != simplex_key(start)
    ]
    require(
        len(rest) == len(stencil) - 1, 'the initial simplex was run {} times',
        len(stencil) - len(rest)
    )
    check_auto(rest, dim, 1e-9)
    return Report(True, [what, 'dim{}'.format(dim)])


# -- circle and sphere stencils ---------------------------------------------

def edge_matrix(simplex):
    diff = simplex[:, None] - simplex[None]
    return np.sqrt((diff**2).sum(axis=-1))


def check_congruent(stencil, tol):
    dim = stencil.shape[-1]
    require(
        stencil.shape[1:] == (dim + 1, dim), 'stencil of shape {}',
        stencil.shape
    )
    first = np.sort(edge_matrix(stencil[0]).ravel())
    longest = first[-1]
    for simplex in stencil:
        edges = np.sort(edge_matrix(simplex).ravel())
        require(
            np.abs(edges - first).max() <= tol,
            'simplices are not congruent: edges {} and {}', first[dim + 1::2],
            edges[dim + 1::2]
        )
        volume = abs(np.linalg.det(simplex[1:] - simplex[0]))
        require(
            volume >= 0.5 * longest**dim, 'simplex {} is degenerate',
            simplex.tolist()
        )
    # regular, with one vertex towards the origin
    pairs = edge_matrix(stencil[0])[~np.eye(dim + 1, dtype=bool)]
    require(
        pairs.max() - pairs.min() <= tol, 'simplices are not regular: edges '
        'of {}', sorted(pairs.tolist())
    )
    near = np.sort(np.sqrt((stencil[0]**2).sum(axis=-1)))
    require(
        near[-1] - near[1] <= tol < near[1] - near[0], 'simplices do not '
        'have one vertex towards the origin: distances {}', near.tolist()
    )
    radii = np.sqrt((stencil.mean(axis=1)**2).sum(axis=-1))
    require(
        radii.max() - radii.min() <= tol and radii.min() > 1,
        'simplices are at distances between {} and {} from the origin',
        radii.min(), radii.max()
    )
    shells = np.sort(np.sqrt((stencil**2).sum(axis=-1)), axis=1)
    require(
        (shells.max(axis=0) - shells.min(axis=0)).max() <= tol,
        'simplices are not oriented the same way: distances of the vertices '
        'from the origin differ by {}',
        (shells.max(axis=0) - shells.min(axis=0)).max()
    )


def check_circle(stencil, tol):
    num = len(stencil)
    check_congruent(stencil, tol)
    angles = np.sort(np.arctan2(
        stencil.mean(axis=1)[:, 1], stencil.mean(axis=1)[:, 0]
    ))
    steps = np.diff(np.append(angles, angles[0] + 2 * np.pi))
    require(
        np.abs(steps - 2 * np.pi / num).max() <= 10 * tol,
        'simplices are not evenly spread: {}', steps.tolist()
    )


def check_sphere(stencil, tol):
    num = len(stencil)
    check_congruent(stencil, tol)
    centers = stencil.mean(axis=1)
    unit = centers / np.sqrt((centers**2).sum(axis=-1))[:, None]
    if num < 2:
        return
    cosine = unit @ unit.T - 3 * np.eye(num)
    closest = math.acos(min(1, cosine.max())) * math.sqrt(num)
    require(closest >= 0.9, 'simplices are only {} / sqrt(n) apart', closest)
    golden = math.pi * (3 - math.sqrt(5))
    idx = np.arange(3000)
    z = (idx + 0.5) / 1500 - 1
    rho = np.sqrt(1 - z * z)
    # directions, in a different frame than that of the stencil
    grid = np.stack(
        [z, np.cos(idx * golden) * rho, np.sin(idx * golden) * rho], axis=1
    )
    far = (grid @ unit.T).max(axis=1).min()
    covering = math.acos(max(-1, far)) * math.sqrt(num)
    require(
        covering <= 3.7, 'a direction is {} / sqrt(n) from all simplices',
        covering
    )


def run_round(case):
    ref = nf.search.refinement_stencil
    num = case['num']
    if case['what'] == 'circle':
        stencil = np.array(ref.get_circle_stencil(num_points=num))
        check = check_circle
    else:
        stencil = np.array(ref.get_sphere_stencil(num_points=num))
        check = check_sphere
    require(len(stencil) == num, '{} simplices for {}', len(stencil), num)
    check(stencil, 1e-11)
    return Report(num > 1, [case['what']])


round_cases = st.fixed_dictionaries(dict(
    what=st.sampled_from(['circle', 'sphere']), num=st.one_of(
        st.integers(1, 200), st.integers(1, 200), st.integers(200, 600)
    )
))


SUBS = [
    Sub('mesh', mesh_cases(), run_mesh, 800, 20000, shards=8),
    Sub('stencil', stencil_cases(), run_stencil, 400, 4000, shards=8),
    Sub('round', round_cases, run_round, 400, 4000, shards=8),
]
