"""C24: closed nodal lines are covered and identified as loops."""
import random

from common import *

from nodefinder.identify.result import NodalLine

ID = 'C24'
LEVEL = 'exploration'
TECHNIQUE = (
    'end-to-end property-based testing with gap functions of known nodal lines'
)
NOTE = (
    'Random circles, ellipses and waves across periodic boundaries in two and '
    'three dimensions are searched with the default refinement and '
    'identified; coverage is checked for sampled points of the exact line.'
)
RULE = (
    'Lines with a length of 12.5 to 18 feature sizes, and 1 to 2 box lengths, '
    'at any place and orientation, mesh sizes 3 to 4. '
    'Non-trivial: a line which crosses a periodic boundary, or not '
    'axis-aligned in three dimensions.'
)
ASSUMPTIONS = [
    'The gap is the distance to the line or its square, or close to it, up '
    'to a factor of two. The identification is judged if neighbouring nodes '
    'on the line are closer than 0.8 feature sizes.'
]


@st.composite
def cases(draw):
    dim = draw(weighted((3, 2), (1, 3)))
    periodic = draw(st.booleans())
    return dict(
        dim=dim, periodic=periodic,
        shape=draw(st.sampled_from(
            ['circle', 'ellipse'] + ['wave', 'wave'] * periodic
        )),
        scale=draw(st.sampled_from([1., 1., 0.01, 50.])),
        square=draw(st.booleans()),
        length=draw(floats(12.5, 18) if dim == 2 else floats(12.5, 15)),
        mesh=draw(st.integers(3, 4)),
        parallel=draw(st.sampled_from([None, 1, 5])),
        seed=draw(st.integers(0, 2**32)),
    )


def make_problem(case):
    rng = np.random.default_rng(case['seed'])
    dim, scale, periodic = case['dim'], case['scale'], case['periodic']
    lo = rng.uniform(-2, 2, dim)
    limits = [[float(scale * a), float(scale * (a + 1))] for a in lo]
    t = np.linspace(0, 1, 401)
    shape = case['shape']
    center = lo + (
        rng.uniform(0, 1, dim) if periodic else rng.uniform(0.42, 0.58, dim)
    )
    if shape == 'wave':
        axes = rng.permutation(dim)
        amp = rng.uniform(0, 0.12)
        amp2 = rng.uniform(0, 0.08)

        def curve(x):
            res = np.zeros(np.shape(x) + (dim, ))
            res[..., axes[0]] = x
            res[..., axes[1]] = amp * np.sin(2 * np.pi * x)
            if dim == 3:
                res[..., axes[2]] = amp2 * np.cos(2 * np.pi * x)
            return res + center

        def vectors(pos):
            delta = (pos - center + 0.5) % 1 - 0.5
            diff = pos - curve(delta[axes[0]])
            diff = (diff + 0.5) % 1 - 0.5
            diff[axes[0]] = 0
            return diff
    else:
        frame = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
        radius = rng.uniform(0.22, 0.28)
        ratio = 1. if shape == 'circle' else rng.uniform(0.8, 1.)

        def curve(x):
            res = np.zeros(np.shape(x) + (dim, ))
            res[..., 0] = radius * np.cos(2 * np.pi * x)
            res[..., 1] = radius * ratio * np.sin(2 * np.pi * x)
            return res @ frame + center

        def vectors(pos):
            delta = pos - center
            if periodic:
                delta = (delta + 0.5) % 1 - 0.5
            delta = frame @ delta
            res = np.array(delta)
            res[0] = math.hypot(delta[0], delta[1] / ratio) - radius
            res[1] = 0
            return res

    def gap(pos):
        vec = vectors(np.asarray(pos, dtype=float) / scale)
        val = float((vec * vec).sum())
        return val if case['square'] else math.sqrt(val)

    points = curve(t) * scale
    length = float(np.sqrt((np.diff(points, axis=0)**2).sum(axis=-1)).sum())
    return limits, points, gap, length / case['length']


def run_case(case):
    limits, curve, gap, fs = make_problem(case)
    box = Box(limits, case['periodic'])
    scale = case['scale']
    threshold = 1e-4
    radius = 2 * scale * (math.sqrt(threshold) if case['square'] else threshold)
    # distance of the sampled points
    radius += scale * 2 / 400
    kwargs = {}
    if case['parallel'] is not None:
        kwargs['num_minimize_parallel'] = case['parallel']
    random.seed(case['seed'])
    result = run(
        gap, limits=limits, periodic=case['periodic'], feature_size=fs,
        gap_threshold=threshold, initial_mesh_size=case['mesh'],
        use_fake_potential=True, **kwargs
    )
    positions = np.array([n.pos for n in result.nodes]).reshape(-1, box.dim)
    require(len(positions), 'no nodes were found')
    for pos in curve:
        dist = np.min(box.dist_many(pos, positions))
        require(
            dist < fs, 'the line at {} is not covered: the next node is {} '
            'away (feature size {})', pos.tolist(), dist, fs
        )
    for pos in positions:
        dist = np.min(box.dist_many(pos, curve))
        require(
            dist <= radius, 'node {} is {} from the line', pos.tolist(), dist
        )
    # largest distance of neighbours along the line
    order = np.argsort([
        np.argmin(box.dist_many(pos, curve[:-1])) for pos in positions
    ])
    chain = positions[np.append(order, order[0])]
    spacing = max(box.dist(a, b) for a, b in zip(chain, chain[1:]))
    dense = spacing < 0.8 * fs
    for method in ('ballistic', 'dominating_set') if dense else ():
        found = nf.identify.run(result, evaluate_line_method=method)
        require(
            len(found) == 1, 'the line is identified as {} objects ({})',
            len(found), method
        )
        obj, = found
        require(
            obj.dimension == 1 and isinstance(obj.shape, NodalLine),
            'the line is identified with dimension {} and shape {} ({})',
            obj.dimension, obj.shape, method
        )
        require(
            obj.shape.shape_name.lower() == 'closed loop',
            'the line is identified as {!r} ({}), degrees {}',
            obj.shape.shape_name, method, dict(obj.shape.degree_count)
        )
    crossing = any(
        np.any((curve[:, i] < lo) | (curve[:, i] > hi))
        for i, (lo, hi) in enumerate(zip(box.lo, box.hi))
    )
    return Report(
        crossing or box.dim == 3,
        ['dim{}'.format(box.dim), case['shape']]
        + (['crossing'] if crossing else [])
        + (['dense'] if dense else ['sparse'])
        + (['square'] if case['square'] else ['linear']),
        dict(nodes=len(positions))
    )


SUBS = [Sub('search', cases(), run_case, 120, 3000, shards=16)]
