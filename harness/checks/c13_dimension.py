"""C13: the dimension of dense samples."""
import random

from shapes import *

from nodefinder.identify import run_from_positions

ID = 'C13'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing with sampled features of known dimension'
NOTE = (
    'Points, segments, arcs, circles, wobbling loops, helices, lines around '
    'the periodic box, planes, spheres, cubes and balls of random size, '
    'position, orientation, density and unit are sampled; each must be '
    'identified as one object of the dimension of the feature, for several '
    'seeds of the random number generator.'
)
RULE = (
    'Spacing of a third to a sixth of the feature size, scatter up to 1% of '
    'it (2% for points), curvature radius of at least two feature sizes. '
    'Non-trivial: dimension of at least one.'
)
ASSUMPTIONS = [
    'Extents of at least 5 (lines), 4 (surfaces) and 2.5 (volumes) feature '
    'sizes, which were found to be identified reliably; features between '
    'these and a single feature size are not decided. A wrong dimension '
    'counts if it is also found with three or more of 40 other random seeds.'
]


@st.composite
def pair_cases(draw):
    """Two features in one box."""
    first = draw(shape_cases(kinds=[
        'point', 'segment', 'circle', 'arc', 'plane', 'cube'
    ]))
    first['periodic'] = False
    first['unit'] = 1.
    second = draw(st.sampled_from(
        ['point', 'segment', 'circle'] if first['dim'] > 1 else
        ['point', 'segment']
    ))
    first['second'] = second
    first['gap'] = draw(floats(1.5, 4.))
    return first


def identify(pts, limits, periodic, fs, seed, **kwargs):
    random.seed(seed)
    np.random.seed(seed % 2**32)
    return run_from_positions(
        pts, coordinate_system=CoordinateSystem(
            limits=limits, periodic=periodic
        ), feature_size=fs, **kwargs
    )


def judge(problem, seed):
    """
    problem : function of the random seed which describes what is wrong

    The dimension is estimated from a random sample, which can be unlucky:
    when it is wrong, it must be right for most other random numbers.
    """
    message = problem(seed)
    if message is None:
        return
    again = 0
    for i in range(40):
        again += problem(seed + 1000 + i) is not None
        require(
            again < 3, '{} (and {} times for {} other random seeds)', message,
            again, i + 1
        )


def run_single(case):
    pts, limits, fs = make_shape(case)
    dim = KINDS[case['kind']][0]

    def problem(seed):
        res = identify(
            pts, limits, case['periodic'], fs, seed,
            evaluate_line_method='ballistic'
        )
        if len(res) != 1:
            return '{} with {} positions was identified as {} objects'.format(
                case['kind'], len(pts), len(res)
            )
        if res[0].dimension != dim:
            return '{} with {} positions has dimension {} instead of {}'.format(
                case['kind'], len(pts), res[0].dimension, dim
            )
        return None

    # the larger samples take longer
    for i in range(1 if len(pts) > 250 else 3):
        judge(problem, case['seed'] + i)
    return Report(dim > 0, [case['kind']])


def run_pair(case):
    pts, _, fs = make_shape(case)
    other = dict(case, kind=case['second'], seed=case['seed'] + 1)
    pts2, _, _ = make_shape(other)
    # move it away from the first one
    shift = max(p[0] for p in pts) - min(p[0] for p in pts2) + case['gap'] * fs
    pts2 = [(p[0] + shift,) + p[1:] for p in pts2]
    everything = np.array(pts + pts2)
    # the box is not relevant when not periodic; make it a large periodic one
    periodic = case['fold']
    limits = [
        (lo - 10 * fs, hi + 10 * fs) for lo, hi in
        zip(everything.min(axis=0), everything.max(axis=0))
    ]
    mixed = [tuple(p) for p in everything]
    random.Random(case['seed']).shuffle(mixed)
    expected = {
        frozenset(pts): KINDS[case['kind']][0],
        frozenset(pts2): KINDS[case['second']][0]
    }

    def problem(seed):
        res = identify(
            mixed, limits, periodic, fs, seed,
            evaluate_line_method='ballistic'
        )
        got = {frozenset(map(tuple, r.positions)): r.dimension for r in res}
        if set(got) != set(expected):
            return 'two features were grouped as {} objects'.format(len(got))
        for key, dim in expected.items():
            if got[key] != dim:
                return (
                    'a feature with {} positions has dimension {} instead of '
                    '{}'.format(len(key), got[key], dim)
                )
        return None

    judge(problem, case['seed'])
    return Report(len(set(expected.values())) > 1, [
        '{}+{}'.format(case['kind'], case['second'])
    ])


@st.composite
def rate_cases(draw):
    """Several small planes or cubes."""
    first = draw(shape_cases(kinds=['plane', 'cube']))
    first.update(
        unit=1., density=3, extent=0., noise=draw(st.sampled_from([0., .01]))
    )
    first['shapes'] = draw(
        st.lists(st.integers(0, 2**20), min_size=4, max_size=4, unique=True)
    )
    return first


RATE_EVALUATIONS = 100
RATE_LIMIT = 3


def run_rate(case):
    """
    A wrong dimension must remain rare. The grouping is done once for each
    shape, since it takes longer than the dimension.
    """
    try:
        from nodefinder.identify._cluster import create_clusters
        from nodefinder.identify._dimension import calculate_dimension
    except ImportError:
        return Report(False, ['unavailable'])
    dim = KINDS[case['kind']][0]
    wrong = 0
    total = 0
    for shape_seed in case['shapes']:
        pts, limits, fs = make_shape(dict(case, seed=shape_seed))
        coordinate_system = CoordinateSystem(
            limits=limits, periodic=case['periodic']
        )
        try:
            graphs = create_clusters(
                pts, feature_size=fs, coordinate_system=coordinate_system
            )
            kwargs = dict(
                graph=graphs[0],
                feature_size=fs,
                coordinate_system=coordinate_system
            )
            calculate_dimension(**kwargs)
        except (TypeError, AttributeError):
            return Report(False, ['unavailable'])
        if len(graphs) != 1:
            raise Violation(
                '{} with {} positions was grouped as {} objects'.format(
                    case['kind'], len(pts), len(graphs)
                )
            )
        for i in range(RATE_EVALUATIONS):
            random.seed(shape_seed * 1000 + i)
            np.random.seed((shape_seed * 1000 + i) % 2**32)
            wrong += calculate_dimension(**kwargs) != dim
            total += 1
            require(
                wrong < RATE_LIMIT,
                'the dimension of small {}s is wrong for {} of {} random '
                'seeds', case['kind'], wrong, total
            )
    return Report(True, [case['kind']])


SUBS = [
    Sub('rate', rate_cases(), run_rate, 24, 800, shards=8, cpu_limit=600),
    Sub('single', shape_cases(), run_single, 640, 20000, shards=16),
    Sub('pair', pair_cases(), run_pair, 240, 8000, shards=16),
]
