"""C27: options which are left out have their default values."""
import random

from common import *

from nodefinder.identify import run_from_positions

ID = 'C27'
LEVEL = 'exploration'
TECHNIQUE = (
    'property-based differential testing of omitted and explicit options'
)
NOTE = (
    'Random searches in which a random subset of the options is left out are '
    'compared bit by bit (evaluations in their order, results, refined '
    'positions, files) to the same searches with the documented default '
    'given explicitly, and likewise the coordinate system, stencils, and the '
    'identification.'
)
RULE = (
    'Non-trivial: at least two minimizations, and a result which differs from '
    'that with other values for the omitted options.'
)
ASSUMPTIONS = [
    'The default of save_delay is decided by C09. The concurrency of default searches is decided with '
    'functions which suspend at every evaluation.'
]

DEFAULTS = dict(
    limits=((0, 1), ) * 3, periodic=True, initial_state=None, save_file=None,
    load=False, load_quiet=True, initial_mesh_size=10,
    force_initial_mesh=False, refinement_stencil='auto', gap_threshold=1e-6,
    feature_size=2e-3, use_fake_potential=False, nelder_mead_kwargs={},
    num_minimize_parallel=50, recheck_pos_dist=True, recheck_count_cutoff=0,
    simplex_check_cutoff=0
)
OPTIONS = sorted(DEFAULTS)
NM_OPTIONS = ['ftol', 'xtol', 'maxiter', 'maxfev', 'fprime_cutoff',
              'keep_history']


@st.composite
def cases(draw):
    omit = draw(st.lists(
        st.sampled_from(OPTIONS), min_size=1, max_size=len(OPTIONS),
        unique=True
    ))
    if 'limits' in omit and not draw(weighted((1, True), (3, False))):
        # (the search in three dimensions takes longer)
        omit.remove('limits')
    return dict(
        omit=sorted(omit),
        dim=draw(st.sampled_from([1, 2, 2])),
        periodic=draw(st.booleans()),
        mesh=draw(st.integers(1, 4)),
        unit=draw(st.sampled_from([0.02, 0.008])),
        threshold=draw(st.sampled_from([1e-5, 1e-7])),
        feature=draw(st.sampled_from([1e-3, 4e-3])),
        fake=draw(st.booleans()), parallel=draw(st.sampled_from([1, 3, 60])),
        recheck=draw(st.booleans()), recheck_count=draw(st.integers(0, 2)),
        simplex_check=draw(st.integers(0, 3)),
        stencil=draw(st.sampled_from([None, 'mesh'])),
        slow=draw(st.booleans()),
        resume=draw(st.booleans()), load=draw(st.booleans()),
        force=draw(st.booleans()), save=draw(st.booleans()),
        nm_omit=sorted(draw(st.lists(
            st.sampled_from(NM_OPTIONS), unique=True
        ))),
        seed=draw(st.integers(0, 2**32)),
    )


def make_problem(case):
    """Values of all options; the default for those which are omitted."""
    rng = np.random.default_rng(case['seed'])
    if 'limits' in case['omit']:
        limits = DEFAULTS['limits']
    else:
        limits = tuple(
            (float(a), float(a + case['unit'] * rng.uniform(1, 2)))
            for a in rng.uniform(-1, 1, case['dim'])
        )
    dim = len(limits)
    values = dict(
        limits=limits, periodic=case['periodic'], initial_state=None,
        save_file=None, load=False, load_quiet=True,
        initial_mesh_size=case['mesh'] if dim < 3 else 2,
        force_initial_mesh=case['force'],
        refinement_stencil=(
            nf.search.refinement_stencil.get_mesh_stencil(mesh_size=[2] * dim)
            if case['stencil'] else None
        ),
        gap_threshold=case['threshold'], feature_size=case['feature'],
        use_fake_potential=case['fake'],
        num_minimize_parallel=case['parallel'],
        recheck_pos_dist=case['recheck'],
        recheck_count_cutoff=case['recheck_count'],
        simplex_check_cutoff=case['simplex_check']
    )
    other = dict(values)
    for name in case['omit']:
        if name not in ('nelder_mead_kwargs', 'initial_state', 'save_file',
                        'load'):
            values[name] = DEFAULTS[name]
    # options of the minimization
    size = max(b - a for a, b in limits)
    cutoff = values['feature_size'] / CUTOFF_FACTOR
    nm_defaults = dict(
        ftol=0.05 * values['gap_threshold'], xtol=0.03 * cutoff,
        maxiter=200 * dim, maxfev=200 * dim, fprime_cutoff=None,
        keep_history=True
    )
    nm_values = dict(
        ftol=values['gap_threshold'], xtol=cutoff, maxiter=30, maxfev=60,
        fprime_cutoff=100., keep_history=False
    )
    nodes = [
        np.array([rng.uniform(a, b) for a, b in limits])
        for _ in range(rng.integers(1, 3))
    ]
    slope = 1 / size if dim == 3 else 1.
    suspend = rng.uniform(0, 1, 97)

    def value(pos):
        pos = np.asarray(pos, dtype=float)
        return slope * min(
            math.sqrt(float(((pos - n)**2).sum())) for n in nodes
        )

    return values, other, nm_defaults, nm_values, value, suspend


def call(case, kwargs, value, suspend):
    calls = []
    most = [0, 0]

    if case['slow']:
        async def gap(pos):
            calls.append(tuple(float(x) for x in pos))
            most[0] += 1
            most[1] = max(most)
            for _ in range(1 + int(3 * suspend[len(calls) % 97])):
                await asyncio.sleep(0)
            most[0] -= 1
            return value(pos)
    else:
        def gap(pos):
            calls.append(tuple(float(x) for x in pos))
            return value(pos)

    try:
        result = run(gap, **kwargs)
    except Exception as exc:
        return dict(calls=calls, error=type(exc).__name__)
    return dict(
        calls=calls, most=most[1], result=container_key(result),
        history=[hasattr(r, 'fun_simplex_history')
                 for r in result.minimization_results]
    ), result


def run_case(case):
    values, other, nm_defaults, nm_values, value, suspend = make_problem(case)
    dim = len(values['limits'])
    folder = scratch_dir()
    back = os.getcwd()
    # bound the effort of large meshes
    limit_effort = dim == 3
    explicit_nm, short_nm = {}, {}
    for name in NM_OPTIONS:
        if limit_effort and name == 'maxfev':
            explicit_nm[name] = short_nm[name] = 8
        elif name in case['nm_omit'] or 'nelder_mead_kwargs' in case['omit']:
            explicit_nm[name] = nm_defaults[name]
        else:
            explicit_nm[name] = short_nm[name] = nm_values[name]
    explicit = dict(values, nelder_mead_kwargs=explicit_nm)
    short = {k: v for k, v in explicit.items() if k not in case['omit']}
    if short_nm:
        short['nelder_mead_kwargs'] = short_nm
    elif 'nelder_mead_kwargs' not in case['omit']:
        short['nelder_mead_kwargs'] = {}
    if case['resume'] and not limit_effort:
        # resume the same search, but interrupted after some evaluations
        path = os.path.join(folder, 'state.hdf5')
        first = dict(explicit)
        first.update(save_file=path, save_delay=0., initial_state=None)
        count = [0]

        def interrupted(pos):
            count[0] += 1
            if count[0] > 60:
                raise ZeroDivisionError
            return value(pos)

        try:
            run(interrupted, **first)
        except ZeroDivisionError:
            pass
        if case['load']:
            for kw in (explicit, short):
                kw.update(save_file=path, load=True, save_delay=1e6)
        elif case['save'] and os.path.exists(path):
            # the existing file must not be loaded
            for kw in (explicit, short):
                kw.update(save_file=path, save_delay=1e6)
            short.pop('load', None)
        else:
            for kw in (explicit, short):
                kw['initial_state'] = nf.io.load(path)
        data = open(path, 'rb').read()
    else:
        path = None
        data = None
        if case['load'] and case['save']:
            # a missing file is not an error by default
            for name, kw in (('one', explicit), ('two', short)):
                kw.update(
                    save_file=os.path.join(folder, name + '.hdf5'), load=True
                )
    results = []
    for kw in (explicit, short):
        work = scratch_dir()
        if path is not None:
            with open(path, 'wb') as f:
                f.write(data)
        os.chdir(work)
        try:
            results.append(call(case, kw, value, suspend))
        finally:
            os.chdir(back)
        require(
            not os.listdir(work), 'files {} written without a save file',
            os.listdir(work)
        )
    one, two = results
    if isinstance(one, dict) or isinstance(two, dict):
        require(
            one == two, 'without {}: {}, with the defaults: {}', case['omit'],
            str(two)[-200:], str(one)[-200:]
        )
        return Report(False, ['error'])
    one, two = one[0], two[0]
    result = results[1][1]
    for key in one:
        if key == 'calls':
            require(
                len(one[key]) == len(two[key]), '{} evaluations without {}, '
                '{} with the defaults', len(two[key]), case['omit'],
                len(one[key])
            )
            for i, (a, b) in enumerate(zip(one[key], two[key])):
                require(
                    a == b, 'evaluation {} is at {} without {}, at {} with '
                    'the defaults', i, b, case['omit'], a
                )
        elif key == 'result':
            for part in one[key]:
                require(
                    one[key][part] == two[key][part], '{} differ without {}',
                    part, case['omit']
                )
        else:
            require(
                one[key] == two[key], '{} is {} without {}, {} with the '
                'defaults', key, two[key], case['omit'], one[key]
            )
    # identification
    nodes = [n.pos for n in result.nodes]
    if len(nodes) <= 150:
        identified = []
        for kwargs in ({}, dict(
            feature_size=result.dist_cutoff * CUTOFF_FACTOR,
            evaluate_line_method='ballistic'
        )):
            random.seed(case['seed'])
            np.random.seed(0)
            identified.append(nf.identify.run(result, **kwargs))
        compare_identified(*identified)
        require(
            math.isclose(
                identified[0].feature_size, values['feature_size'],
                rel_tol=1e-12
            ), 'identified with feature size {} instead of {}',
            identified[0].feature_size, values['feature_size']
        )
        identified = []
        for kwargs in ({}, dict(evaluate_line_method='shortest_path')):
            random.seed(case['seed'])
            np.random.seed(0)
            identified.append(run_from_positions(
                nodes, coordinate_system=result.coordinate_system,
                feature_size=values['feature_size'] * 3, **kwargs
            ))
        compare_identified(*identified)
    return Report(
        len(result.minimization_results) > 1 and other != values,
        ['dim{}'.format(dim)] + (['resumed'] if path is not None else [])
        + (['nodes'] if nodes else []),
        dict(minimizations=len(result.minimization_results))
    )


def compare_identified(one, two):
    def key(cont):
        return sorted(
            (sorted(map(tuple, np.asarray(o.positions).tolist())),
             str(o.dimension), type(o.shape).__name__,
             sorted(map(sorted, o.shape.graph.edges))
             if hasattr(o.shape, 'graph') else str(o.shape)) for o in cont
        )

    require(
        key(one) == key(two), 'the identification differs from that with the '
        'default options'
    )


# -- coordinate system ------------------------------------------------------

box_cases = st.fixed_dictionaries(dict(
    box=boxes(), pos=st.lists(
        st.lists(floats(-2, 3), min_size=3, max_size=3), min_size=2, max_size=2
    )
))


def run_box(case):
    limits = case['box']['limits']
    dim = len(limits)
    plain = CoordinateSystem(limits=limits)
    periodic = CoordinateSystem(limits=limits, periodic=True)
    require(
        bool(plain.periodic) is True, 'a coordinate system is not periodic '
        'by default'
    )
    one, two = [
        np.array([a + f * (b - a) for f, (a, b) in zip(fr, limits)])
        for fr in case['pos']
    ]
    require(
        plain.distance(one, two) == periodic.distance(one, two),
        'the distance differs from that in a periodic box'
    )
    stencil = nf.search.refinement_stencil
    size = [2] * dim
    require(
        np.array_equal(
            stencil.get_mesh_stencil(mesh_size=size),
            stencil.get_mesh_stencil(mesh_size=size, dist_multiplier=2.5)
        ), 'mesh stencil differs from that with the default half-width'
    )
    return Report(True, ['dim{}'.format(dim)])


# -- minimizations which do not converge --------------------------------------

hard_cases = st.fixed_dictionaries(dict(
    dim=st.sampled_from([1, 1, 2, 2, 3, 4]), kind=st.sampled_from(['noise', 'flat', 'power']),
    power=st.sampled_from([0.02, 0.05, 0.1]), fake=st.booleans(),
    omit=st.lists(
        st.sampled_from(['maxiter', 'maxfev']), unique=True, max_size=2
    ),
    seed=st.integers(0, 2**32)
))


def run_hard(case):
    """Limits of iterations and evaluations, where these matter."""
    dim = case['dim']
    rng = np.random.default_rng(case['seed'])
    node = rng.uniform(0.2, 0.8, dim)

    def gap(pos):
        dist = float(np.max(np.abs(np.asarray(pos) - node)))
        if case['kind'] == 'power':
            return dist**case['power']
        noise = random.Random(repr([float(x) for x in pos])).random()
        return 1 + noise + (dist if case['kind'] == 'noise' else 0)

    defaults = dict(maxiter=200 * dim, maxfev=200 * dim)
    base = dict(
        limits=[(0, 1)] * dim, initial_mesh_size=1, refinement_stencil=None,
        gap_threshold=1e-5, use_fake_potential=case['fake'],
        feature_size=0.1
    )
    one = run(gap, nelder_mead_kwargs=defaults, **base)
    two = run(gap, nelder_mead_kwargs={
        k: v for k, v in defaults.items() if k not in case['omit']
    }, **base)
    one, two = [
        [(r.num_fev, r.num_iter, bool(r.success), tuple(r.pos))
         for r in res.minimization_results] for res in (one, two)
    ]
    require(
        one == two, 'minimization without {} is (num_fev, num_iter, success, '
        'pos) = {}, with the defaults: {}', case['omit'], two, one
    )
    return Report(one[0][0] >= 100 * dim, [case['kind']])


SUBS = [
    Sub('hard', hard_cases, run_hard, 96, 2000, shards=4),
    Sub('search', cases(), run_case, 320, 6400, shards=16),
    Sub('box', box_cases, run_box, 200, 2000, shards=4),
]
