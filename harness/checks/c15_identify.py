"""C15: identification handles any positions."""
import random

from common import *
from checks.c03_soundness import make_result
from checks.c13_dimension import identify
from checks.c14_lines import METHODS, check_line

from nodefinder.identify.result import NodalLine, NodalPoint

ID = 'C15'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing and fuzzing of point clouds'
NOTE = (
    'Arbitrary clouds of positions (empty, single, repeated, collinear, '
    'images of each other, random, gridded) are identified with all methods '
    'and checked for completeness and consistency of the objects; results of '
    'searches and search states give the same objects as their positions.'
)
RULE = (
    'Boxes of 1-4 dimensions, up to 60 (sub "many": 400) positions, feature sizes from much '
    'smaller than their distances to the whole box. Non-trivial: at least two '
    'objects, or an object of dimension one or more.'
)
ASSUMPTIONS = ['Finite coordinates.']


@st.composite
def clouds(draw, dims=(1, 2, 2, 3, 3, 4)):
    box = draw(boxes(dims=dims))
    dim = len(box['limits'])
    size = min(abs(b - a) for a, b in box['limits'])
    kind = draw(st.sampled_from([
        'random', 'random', 'line', 'grid', 'blobs', 'few', 'images', 'plane',
        'huge'
    ]))
    return dict(
        box, kind=kind,
        num=draw(st.integers(0, 4) if kind == 'few' else st.integers(2, 60 if dim < 3 else 28)),
        feature_size=size * draw(weighted(
            (4, floats(0.05, 0.5)), (1, floats(0.5, 2)), (1, floats(1e-3, 0.05))
        )),
        noise=draw(st.sampled_from([0., 1e-9, 1e-3, 0.05])),
        repeat=draw(weighted((3, 0), (1, st.integers(1, 5)))),
        seed=draw(st.integers(0, 2**32)),
        method=draw(st.sampled_from(METHODS)),
        array=draw(st.booleans()),
        # feature size of the identification, in units of that of the search
        relative=draw(st.sampled_from([0.01, 0.1, 0.3, 0.5, 0.9, 2., 5.])),
    )


def make_cloud(case):
    rng = np.random.default_rng(case['seed'])
    box = Box(case['limits'], case['periodic'])
    dim, num, fs = box.dim, case['num'], case['feature_size']
    lo, size = np.array(box.lo), np.array(box.size)
    kind = case['kind']
    if num == 0:
        return []
    if kind in ('random', 'few'):
        pts = lo + size * rng.uniform(0, 1, (num, dim))
    elif kind in ('line', 'plane'):
        num_dir = min(dim, 1 if kind == 'line' else 2)
        direc = rng.normal(size=(num_dir, dim))
        if rng.integers(2):
            direc = np.eye(dim)[rng.permutation(dim)[:num_dir]]
        direc /= np.linalg.norm(direc, axis=-1)[:, None]
        spacing = rng.uniform(0.1, 1.1)
        if rng.integers(2):
            s = np.arange(num)[:, None] * spacing
            if num_dir == 2:
                s = np.stack([s[:, 0] % (5 * spacing),
                              s[:, 0] // (5 * spacing) * spacing], axis=-1)
        else:
            s = rng.uniform(0, spacing * num**(1 / num_dir), (num, num_dir))
        pts = lo + 0.5 * size + fs * (s @ direc)
    elif kind == 'grid':
        side = int(np.ceil(num**(1 / dim)))
        idx = np.stack(np.meshgrid(*[np.arange(side)] * dim),
                       axis=-1).reshape(-1, dim)[:num]
        pts = lo + idx * (
            fs * rng.choice([0.25, 0.5, 1.]) if rng.integers(2) else size / side
        )
    elif kind in ('blobs', 'many blobs'):
        num_blobs = 3 if kind == 'blobs' else num // 5
        centers = lo + size * rng.uniform(0, 1, (num_blobs, dim))
        pts = centers[rng.integers(0, num_blobs, num)] + fs * rng.normal(
            size=(num, dim)) * rng.choice([0.01, 0.2, 0.5])
    elif kind == 'huge':
        # positions far outside of the box
        pts = lo + size * rng.uniform(-50, 50, (num, dim))
    else:
        base = lo + size * rng.uniform(0, 1, (max(1, num // 3), dim))
        pts = base[rng.integers(0, len(base), num)] + size * rng.integers(
            -1, 2, (num, dim))
    pts = pts + fs * case['noise'] * rng.normal(size=pts.shape)
    if case['periodic'] and kind not in ('images', 'huge'):
        pts = (pts - lo) % size + lo
    res = [tuple(float(x) for x in p) for p in pts]
    for _ in range(case['repeat']):
        res.insert(int(rng.integers(len(res) + 1)),
                   res[int(rng.integers(len(res)))])
    return res


def check_objects(objects, pts, box, fs, method):
    """Completeness and consistency."""
    seen = []
    for obj in objects:
        own = [tuple(map(float, p)) for p in obj.positions]
        require(own, 'an object has no positions')
        seen.extend(own)
        require(
            obj.dimension is None or 0 <= obj.dimension <= box.dim,
            'dimension {} in a {}-dimensional box', obj.dimension, box.dim
        )
        if obj.dimension == 0:
            require(
                isinstance(obj.shape, NodalPoint), 'shape of a point is {!r}',
                obj.shape
            )
            pos = [float(x) for x in obj.shape.position]
            require(
                len(pos) == box.dim and all(map(math.isfinite, pos)),
                'position of a point is {}', pos
            )
        elif obj.dimension == 1:
            check_line(obj, box, fs, method)
        else:
            require(
                obj.shape is None, 'object of dimension {} has shape {!r}',
                obj.dimension, obj.shape
            )
    require(
        len(seen) == len(set(seen)), 'a position is in several objects'
    )
    require(
        set(seen) == set(pts), '{} of {} positions are not in any object, '
        'and {} others are', len(set(pts) - set(seen)), len(set(pts)),
        len(set(seen) - set(pts))
    )


def object_keys(objects):
    """Content of the objects, independent of their order."""
    res = []
    for obj in objects:
        shape = obj.shape
        if isinstance(shape, NodalPoint):
            key = ('point',)
        elif isinstance(shape, NodalLine):
            key = ('line',)
        else:
            key = ('none',)
        res.append((
            sorted(tuple(map(float, p)) for p in obj.positions),
            str(obj.dimension), key
        ))
    return sorted(res)


def run_cloud(case):
    box = Box(case['limits'], case['periodic'])
    fs = case['feature_size']
    pts = make_cloud(case)
    given = [np.array(p) for p in pts] if case['array'] else pts
    limits = [tuple(x) for x in case['limits']]
    objects = identify(
        given, limits, case['periodic'], fs, case['seed'],
        evaluate_line_method=case['method']
    )
    check_objects(objects, pts, box, fs, case['method'])
    require(objects.feature_size == fs, 'wrong feature size')
    require(
        objects.coordinate_system.limits.tolist() ==
        [sorted(x) for x in case['limits']], 'wrong coordinate system'
    )
    require(
        len(objects) == len(list(objects)) and
        all(objects[i] is o for i, o in enumerate(objects)),
        'container is inconsistent'
    )
    labels = ['dimension-{}'.format(o.dimension) for o in objects]
    return Report(
        len(objects) > 1 or any(o.dimension != 0 for o in objects),
        sorted(set(labels)) + [case['kind']]
    )



def run_container(case):
    """From a search result / state."""
    box = Box(case['limits'], case['periodic'])
    fs = case['feature_size']
    rng = random.Random(case['seed'])
    pts = make_cloud(case)
    cs = CoordinateSystem(
        limits=[tuple(x) for x in case['limits']], periodic=case['periodic']
    )
    cutoff = fs / CUTOFF_FACTOR
    # limit the number of cells
    if max(box.size) / cutoff > {1: 100, 2: 100, 3: 25, 4: 8}[box.dim]:
        return Report(False, ['too many cells'])
    cont = SearchResultContainer(
        coordinate_system=cs, gap_threshold=0.5, dist_cutoff=cutoff
    )
    for p in pts:
        cont.add_result(make_result(np.array(p), rng.choice([0.1, 0., 0.5])))
        if rng.random() < 0.3:
            # not a node
            success = rng.random() < 0.5
            cont.add_result(make_result(
                np.array([x + rng.uniform(-1, 1) * fs for x in p]),
                0.9 if success else rng.choice([0.1, 0.9]), success=success
            ))
    nodes = [tuple(map(float, n.pos)) for n in cont.nodes]
    state = ControllerState(
        result=cont, simplex_queue=SimplexQueue(),
        position_queue=PositionQueue()
    )
    method = case['method']
    outcomes = []
    for obj, size in [
        (cont, None), (state, None), (cont, fs),
        (cont, case['relative'] * fs), (state, case['relative'] * fs)
    ]:
        kwargs = {} if size is None else dict(feature_size=size)
        random.seed(case['seed'])
        res = nf.identify.run(obj, evaluate_line_method=method, **kwargs)
        expected_fs = fs if size is None else size
        require(
            math.isclose(res.feature_size, expected_fs, rel_tol=1e-12),
            'feature size {} instead of {}', res.feature_size, expected_fs
        )
        check_objects(res, nodes, box, res.feature_size, method)
        random.seed(case['seed'])
        direct = nf.identify.run_from_positions(
            nodes, coordinate_system=cs, feature_size=res.feature_size,
            evaluate_line_method=method
        )
        one, two = object_keys(res), object_keys(direct)
        require(
            [x[0] for x in one] == [x[0] for x in two],
            'other objects than from the positions'
        )
        outcomes.append(res)
    # no method given
    random.seed(case['seed'])
    res = nf.identify.run(cont)
    check_objects(res, nodes, box, res.feature_size, 'ballistic')
    random.seed(case['seed'])
    res = nf.identify.run_from_positions(
        nodes, coordinate_system=cs, feature_size=fs
    )
    check_objects(res, nodes, box, res.feature_size, 'ballistic')
    return Report(len(outcomes[0]) > 1, [
        'dimension-{}'.format(o.dimension) for o in outcomes[0]
    ])


@st.composite
def many_clouds(draw):
    case = draw(clouds(dims=(2, 2, 3)))
    size = min(abs(b - a) for a, b in case['limits'])
    return dict(
        case, num=draw(st.sampled_from([100, 200, 400])),
        kind=draw(st.sampled_from(['random', 'line', 'grid', 'many blobs'])),
        feature_size=size * draw(floats(0.01, 0.04)), relative=0.5
    )


SUBS = [
    Sub('many', many_clouds(), run_cloud, 96, 3000, shards=16),
    Sub('clouds', clouds(), run_cloud, 1600, 50000, shards=16),
    Sub('containers', clouds(dims=(1, 2, 2, 3)), run_container, 240, 8000,
        shards=16),
]
