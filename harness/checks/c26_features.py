"""C26: nodal surfaces and areas, and several features in one box."""
import random

from common import *

from nodefinder.identify.result import NodalLine, NodalPoint

ID = 'C26'
LEVEL = 'exploration'
TECHNIQUE = (
    'end-to-end property-based testing with gap functions of known features'
)
NOTE = (
    'Random points, circles, waves, discs, planes and spheres, alone or in '
    'pairs, at any place in periodic and open boxes of two and three '
    'dimensions, are searched with the default refinement and identified. '
    'Each sampled point of the exact features must have a node close by, and '
    'each feature must be identified as one object of its dimension.'
)
RULE = (
    'Lines have a length of at least 12.5 feature sizes, surfaces and areas '
    'a radius of at least 1.8 feature sizes, and features are at least 2 '
    'feature sizes apart. Non-trivial: a surface or area, or two features.'
)
ASSUMPTIONS = [
    'The gap is the distance to the closest feature, or up to a factor of two '
    'different. The fake potential is used if there is a line. A wrong '
    'identification counts if it is repeated for two of five other random '
    'seeds.'
]


@st.composite
def cases(draw):
    dim = draw(weighted((2, 2), (1, 3)))
    periodic = draw(st.booleans())
    kinds = {
        2: ['point', 'circle', 'disc', 'disc'] + ['wave'] * periodic,
        3: ['point', 'sphere', 'circle'] + ['plane'] * periodic
    }[dim]
    first = draw(st.sampled_from(kinds[::-1]))
    pair = draw(st.booleans())
    second = None
    if pair:
        if first in ('sphere', 'plane') or (dim == 3 and first == 'circle'):
            second = 'point'
        else:
            second = draw(st.sampled_from(
                [k for k in kinds if k not in ('sphere', 'plane')]
                if dim == 2 else ['point', 'circle']
            ))
    return dict(
        dim=dim, periodic=periodic, first=first, second=second,
        scale=draw(st.sampled_from([1., 1., 0.01, 50.])),
        fake=draw(st.booleans()), mesh=draw(st.integers(3, 4)),
        slope=draw(st.sampled_from([1., 0.7, 1.5])),
        parallel=draw(st.sampled_from([None, 1, 5])),
        seed=draw(st.integers(0, 2**32)),
    )


DIMENSION = dict(
    point=0, circle=1, wave=1, disc=2, plane=2, sphere=2
)


def make_feature(kind, dim, rng):
    """
    Returns the distance from a feature at the origin, for wrapped relative
    positions, sampled positions, and the largest feature size.
    """
    def norm(x):
        return math.sqrt(float((x * x).sum()))

    if kind == 'point':
        return norm, np.zeros((1, dim)), 0.22
    if kind == 'circle':
        radius = rng.uniform(0.22, 0.28)
        frame = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
        phi = np.linspace(0, 2 * np.pi, 400)
        samples = np.zeros((400, dim))
        samples[:, 0] = radius * np.cos(phi)
        samples[:, 1] = radius * np.sin(phi)

        def distance(x):
            x = frame @ x
            out = math.hypot(x[0], x[1]) - radius
            return math.hypot(out, *x[2:])

        return distance, samples @ frame, 2 * np.pi * radius / 12.5
    if kind == 'wave':
        amp = rng.uniform(0, 0.1)
        y = np.linspace(-.5, .5, 400)
        samples = np.stack([amp * np.sin(2 * np.pi * y), y], axis=1)
        return (
            lambda x: abs(x[0] - amp * math.sin(2 * math.pi * x[1])),
            samples, 1 / 12.5
        )
    if kind == 'disc':
        radius = rng.uniform(0.22, 0.28)
        r = radius * np.sqrt(np.linspace(0, 1, 400))
        phi = np.arange(400) * math.pi * (3 - math.sqrt(5))
        samples = np.stack([r * np.cos(phi), r * np.sin(phi)], axis=1)
        return lambda x: max(0., norm(x) - radius), samples, radius / 2
    if kind == 'sphere':
        radius = rng.uniform(0.3, 0.36)
        idx = np.arange(400)
        z = (idx + 0.5) / 200 - 1
        phi = idx * math.pi * (3 - math.sqrt(5))
        rho = np.sqrt(1 - z * z)
        samples = radius * np.stack(
            [rho * np.cos(phi), rho * np.sin(phi), z], axis=1
        )
        return lambda x: abs(norm(x) - radius), samples, radius / 1.8
    assert kind == 'plane'
    amp = rng.uniform(0, 0.08)
    grid = np.stack(np.meshgrid(
        np.linspace(-.5, .5, 20), np.linspace(-.5, .5, 20)
    ), axis=-1).reshape(-1, 2)
    samples = np.concatenate(
        [amp * np.sin(2 * np.pi * grid[:, :1]), grid], axis=1
    )
    return (
        lambda x: abs(x[0] - amp * math.sin(2 * math.pi * x[1])), samples, 0.22
    )


def make_problem(case):
    rng = np.random.default_rng(case['seed'])
    dim, scale = case['dim'], case['scale']
    kinds = [case['first']]
    if case['second'] is not None:
        kinds.append(case['second'])
    size = np.ones(dim)
    size[0] = len(kinds)
    low = rng.uniform(-2, 2, dim)
    if case['periodic']:
        origin = low + rng.uniform(0, 1, dim) * size
    else:
        origin = low + 0.5 + rng.uniform(-0.1, 0.1, dim)
    features = []
    sizes = []
    for i, kind in enumerate(kinds):
        center = np.array(origin)
        center[0] += i
        distance, samples, largest = make_feature(kind, dim, rng)
        features.append((kind, center, distance, samples + center))
        sizes.append(largest)
    # exchange the axes
    axes = rng.permutation(dim)
    fs = min(sizes) * rng.uniform(0.85, 1.)

    def gap(pos):
        pos = np.asarray(pos, dtype=float) / scale
        real = np.empty(dim)
        real[axes] = pos
        best = math.inf
        for _, center, distance, _ in features:
            delta = real - center
            if case['periodic']:
                delta -= np.round(delta / size) * size
            best = min(best, distance(delta))
        return case['slope'] * best

    limits = [
        [float(scale * low[a]), float(scale * (low[a] + size[a]))]
        for a in axes
    ]
    mesh = [int(case['mesh'] * size[a]) for a in axes]
    exact = [
        (kind, samples[:, axes] * scale) for kind, _, _, samples in features
    ]
    return limits, mesh, gap, fs * scale, exact


def run_case(case):
    limits, mesh, gap, fs, exact = make_problem(case)
    box = Box(limits, case['periodic'])
    scale = case['scale']
    kinds = [kind for kind, _ in exact]
    kwargs = {}
    if case['parallel'] is not None:
        kwargs['num_minimize_parallel'] = case['parallel']
    random.seed(case['seed'])
    threshold = 1e-4
    result = run(
        gap, limits=limits, periodic=case['periodic'], feature_size=fs,
        gap_threshold=threshold, initial_mesh_size=mesh,
        use_fake_potential=(
            case['fake'] or 'circle' in kinds or 'wave' in kinds
        ), **kwargs
    )
    positions = np.array([n.pos for n in result.nodes]).reshape(-1, box.dim)
    require(len(positions), 'no nodes were found')
    worst = 0
    for kind, samples in exact:
        for pos in samples:
            dist = np.min(box.dist_many(pos, positions))
            worst = max(worst, dist / fs)
            require(
                dist < fs, 'the {} at {} is not covered: the next node is {} '
                'away (feature size {})', kind, pos.tolist(), dist, fs
            )
    for node in result.nodes:
        require(
            gap(node.pos) <= threshold * (1 + 1e-9) + 1e-12,
            'node {} has the gap {}', node.pos.tolist(), gap(node.pos)
        )
    def problem(seed):
        random.seed(seed)
        found = nf.identify.run(result)
        if len(found) != len(exact):
            return '{} identified as {} objects, of dimensions {}'.format(
                ' and '.join(kinds), len(found), [o.dimension for o in found]
            )
        left = list(exact)
        for obj in found:
            pos = np.array(obj.positions[0])
            dists = [
                float(np.min(box.dist_many(pos, samples)))
                for _, samples in left
            ]
            kind, _ = left.pop(int(np.argmin(dists)))
            if obj.dimension != DIMENSION[kind]:
                return 'a {} is identified with dimension {}'.format(
                    kind, obj.dimension
                )
            shape = {0: NodalPoint, 1: NodalLine, 2: type(None)}[
                obj.dimension]
            if not isinstance(obj.shape, shape):
                return 'a {} has the shape {}'.format(kind, obj.shape)
        return None

    # the dimension is estimated from a random sample
    message = problem(case['seed'])
    if message is not None:
        again = sum(problem(case['seed'] + 1 + i) is not None
                    for i in range(5))
        require(again < 2, '{} (and {} of 5 other times)', message, again)
    return Report(
        len(kinds) > 1 or DIMENSION[kinds[0]] == 2,
        ['+'.join(sorted(kinds)), 'dim{}'.format(box.dim)],
        dict(nodes=len(positions))
    )


SUBS = [Sub('search', cases(), run_case, 112, 2400, shards=16,
            cpu_limit=300)]
