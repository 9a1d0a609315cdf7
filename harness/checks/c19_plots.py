"""C19: plots show exactly the given results."""
import io
import random
from collections import Counter

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
import networkx as nx
from matplotlib.collections import LineCollection, PathCollection
from mpl_toolkits.mplot3d import Axes3D
from mpl_toolkits.mplot3d.art3d import Line3DCollection, Poly3DCollection

from common import *
from checks.c03_soundness import make_result

from nodefinder.identify.result import (
    IdentificationResult, IdentificationResultContainer, NodalLine, NodalPoint
)

ID = 'C19'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing against the artists of the plots'
NOTE = (
    'Random results, simplices, stencils, graphs and objects are plotted in '
    'two and three dimensions, on given and new axes; the points and line '
    'segments of all artists on the axes are compared to the data.'
)
RULE = (
    'Up to 10 results or 4 objects (sub "large": 400 results, 24 objects of '
    'up to 300 positions). '
    'Non-trivial: search plots with nodes and rejected results, or '
    'identification plots with a line graph of which some edges are omitted '
    'or which has branches.'
)
ASSUMPTIONS = [
    'Edges whose length is within 1e-9 of twice the feature size may be drawn '
    'or not. Vertices of a line graph without edges are not decided, except '
    'when the graph has no edges at all.'
]


# -- reading the axes -------------------------------------------------------

def drawn_points(axis):
    """All points of scatter plots, with their values (or None)."""
    res = []
    for coll in axis.collections:
        if not isinstance(coll, PathCollection):
            continue
        if isinstance(axis, Axes3D):
            coords = [np.ma.getdata(np.ma.asarray(c)).ravel()
                      for c in coll._offsets3d]
        else:
            coords = list(np.asarray(coll.get_offsets()).reshape(-1, 2).T)
        pts = [tuple(float(x) for x in p) for p in zip(*coords)]
        vals = coll.get_array()
        if vals is None:
            vals = [None] * len(pts)
        else:
            vals = [float(v) for v in np.asarray(vals).ravel()]
        require(
            len(vals) == len(pts), '{} values for {} points', len(vals),
            len(pts)
        )
        res.extend(zip(pts, vals))
    return res


def drawn_paths(axis):
    res = []
    for line in axis.lines:
        if isinstance(axis, Axes3D):
            data = line.get_data_3d()
        else:
            data = line.get_data()
        res.append([tuple(float(x) for x in p)
                    for p in zip(*[np.asarray(d).ravel() for d in data])])
    for coll in axis.collections:
        if isinstance(coll, Line3DCollection):
            segs = coll._segments3d
        elif isinstance(coll, LineCollection):
            segs = coll.get_segments()
        else:
            continue
        res.extend([tuple(float(x) for x in p) for p in s] for s in segs)
    return res


def drawn_segments(axis):
    res = Counter()
    for path in drawn_paths(axis):
        for a, b in zip(path, path[1:]):
            res[frozenset([a, b])] += 1
    return res


def point_colors(axis):
    """Maps each point to the (hexadecimal) colors it is drawn in."""
    res = {}
    for coll in axis.collections:
        if not isinstance(coll, PathCollection):
            continue
        if isinstance(axis, Axes3D):
            coords = [np.ma.getdata(np.ma.asarray(c)).ravel()
                      for c in coll._offsets3d]
        else:
            coords = list(np.asarray(coll.get_offsets()).reshape(-1, 2).T)
        faces = np.asarray(
            getattr(coll, '_facecolor3d', None)
            if isinstance(axis, Axes3D) and
            getattr(coll, '_facecolor3d', None) is not None
            else coll.get_facecolor()
        ).reshape(-1, 4)
        for i, p in enumerate(zip(*coords)):
            color = tuple(float(x) for x in faces[i % len(faces)][:3])
            res.setdefault(tuple(float(x) for x in p), set()).add(color)
    return res


def segment_colors(axis):
    res = {}
    for line in axis.lines:
        if isinstance(axis, Axes3D):
            data = line.get_data_3d()
        else:
            data = line.get_data()
        path = [tuple(float(x) for x in p)
                for p in zip(*[np.asarray(d).ravel() for d in data])]
        color = to_rgba(line.get_color())[:3]
        for a, b in zip(path, path[1:]):
            res.setdefault(frozenset([a, b]), set()).add(color)
    return res


def check_settings(axis, keys, settings, what):
    """The lines of the given segments use the given settings."""
    for line in axis.lines:
        if isinstance(axis, Axes3D):
            data = line.get_data_3d()
        else:
            data = line.get_data()
        path = [tuple(float(x) for x in p)
                for p in zip(*[np.asarray(d).ravel() for d in data])]
        if not any(frozenset(e) in keys for e in zip(path, path[1:])):
            continue
        require(
            to_rgba(line.get_color())[:3] == to_rgba(settings['color'])[:3],
            '{}: line has color {} instead of {}', what, line.get_color(),
            settings['color']
        )
        for name in ('linewidth', 'alpha'):
            if name in settings:
                got = getattr(line, 'get_' + name)()
                require(
                    got == settings[name], '{}: {} is {} instead of {}', what,
                    name, got, settings[name]
                )


def check_limits(axis, limits):
    got = [axis.get_xlim(), axis.get_ylim()]
    if len(limits) == 3:
        got.append(axis.get_zlim())
    for one, two in zip(got, limits):
        require(
            np.allclose(one, sorted(two), rtol=1e-9, atol=1e-9),
            'axis limits {} instead of {}', one, two
        )


class Axes:
    """Calls a plot function with given or new axes."""

    def __init__(self, how, dim):
        plt.close('all')
        self.how = how
        self.dim = dim
        self.given = None
        if how != 'new':
            self.fig = plt.figure()
            self.given = self.fig.add_subplot(
                121 if how == 'given' else 111,
                projection='3d' if dim == 3 else None
            )
            # another (current) axes, which must stay empty
            if how == 'given':
                self.other = self.fig.add_subplot(122)
            else:
                self.other = plt.figure().add_subplot(111)

    def __call__(self, func, *args, **kwargs):
        before = plt.get_fignums()
        if self.given is not None:
            kwargs['axis'] = self.given
        fig, axis = func(*args, **kwargs)
        if self.given is None:
            require(fig is not None, 'no figure returned')
            require(
                len(plt.get_fignums()) == len(before) + 1,
                'not exactly one figure was created'
            )
            require(
                axis.figure is fig and list(fig.axes) == [axis],
                'axes are not those of the new figure'
            )
            require(
                isinstance(axis, Axes3D) == (self.dim == 3), 'wrong axes type'
            )
        else:
            require(axis is self.given, 'other axes were returned')
            require(
                plt.get_fignums() == before, 'a new figure was created'
            )
            require(
                not self.other.lines and not self.other.collections,
                'drawn on other axes'
            )
        return axis

    def draw(self, axis):
        axis.figure.savefig(io.BytesIO(), format='png', dpi=30)


# -- search -----------------------------------------------------------------

@st.composite
def search_plot_cases(draw):
    box = draw(boxes(dims=(2, 3)))
    dim = len(box['limits'])
    pos = st.lists(floats(0, 1), min_size=dim, max_size=dim)
    results = draw(st.lists(st.tuples(
        pos, st.sampled_from([0., 0.1, 0.3, 0.4999, 0.5, 0.6, 2.]),
        weighted((3, True), (1, False))
    ).map(list), max_size=10))
    return dict(
        box, results=results, refined=draw(st.lists(pos, max_size=2)),
        axes=draw(st.sampled_from(['new', 'given', 'other-figure'])),
        select=draw(st.sampled_from(['nodes', 'some', 'rejected', 'none'])),
        history=draw(st.integers(1, 4)),
        stencil=draw(stencils(dim, none=False)),
        sphere=draw(st.booleans()), origin=draw(st.booleans()),
        style=draw(st.one_of(st.none(), st.fixed_dictionaries(dict(
            color=st.sampled_from(['C3', 'red', '#123456', 'k']),
            linewidth=st.sampled_from([0.5, 3.]),
            alpha=st.sampled_from([0.25, 1.]),
        )))),
        draw=draw(weighted((4, False), (1, True))),
        seed=draw(st.integers(0, 10**6)),
    )


def build_container(case):
    box = Box(case['limits'], case['periodic'])
    rng = random.Random(case['seed'])
    cont = SearchResultContainer(
        coordinate_system=CoordinateSystem(
            limits=[tuple(x) for x in case['limits']],
            periodic=case['periodic']
        ), gap_threshold=0.5, dist_cutoff=min(box.size) / 3
    )
    for frac, value, success in case['results']:
        pos = np.array([
            lo + f * s for lo, f, s in zip(box.lo, frac, box.size)
        ])
        res = make_result(pos, value)
        res.success = success
        res.simplex_history = np.array([
            [[rng.uniform(lo, hi) for lo, hi in zip(box.lo, box.hi)]
             for _ in range(box.dim + 1)] for _ in range(case['history'])
        ])
        cont.add_result(res)
    for frac in case['refined']:
        cont.set_refined(np.array([
            lo + f * s for lo, f, s in zip(box.lo, frac, box.size)
        ]))
    return cont


def edges_of(simplices):
    res = set()
    for simplex in simplices:
        pts = [tuple(float(x) for x in v) for v in simplex]
        res.update(frozenset(e) for e in itertools.combinations(pts, 2))
    return res


def check_sphere(axis, expected):
    """A surface is drawn if and only if expected, and is the unit sphere."""
    surfaces = [
        c for c in axis.collections if isinstance(c, Poly3DCollection)
    ]
    require(
        len(surfaces) == expected, 'stencil: {} surfaces drawn', len(surfaces)
    )
    for surface in surfaces:
        if not hasattr(surface, '_vec'):
            continue
        vec = np.asarray(surface._vec)[:3]
        norm = np.sqrt((vec**2).sum(axis=0))
        require(
            vec.size > 0 and np.abs(norm - 1).max() < 1e-9,
            'stencil: the sphere has another radius'
        )
        require(
            vec.max(axis=1).min() > 0.95 and vec.min(axis=1).max() < -0.95,
            'stencil: the sphere is not complete'
        )


def run_search_plots(case):
    dim = len(case['limits'])
    cont = build_container(case)
    limits = case['limits']
    rng = random.Random(case['seed'])
    expected = sorted(
        (tuple(float(x) for x in n.pos), float(n.value)) for n in cont.nodes
    )
    # points
    axes = Axes(case['axes'], dim)
    axis = axes(nf.search.plot.points, cont)
    got = sorted(drawn_points(axis))
    if expected:
        require(
            all(v is not None for _, v in got) and got == expected,
            'points: drawn {} instead of {}', got, expected
        )
    else:
        require(not got, 'points: drawn {} without any node', got)
    require(not drawn_segments(axis), 'points: lines drawn')
    check_limits(axis, limits)
    if case['draw']:
        axes.draw(axis)
    # simplices
    everything = list(cont.minimization_results)
    select = {
        'nodes': list(cont.nodes), 'rejected': list(cont.rejected_results),
        'some': [r for r in everything if rng.random() < 0.5], 'none': []
    }[case['select']]
    axes = Axes(case['axes'], dim)
    style = {}
    if case['style'] is not None:
        style['line_settings'] = dict(case['style'])
    axis = axes(nf.search.plot.simplices, cont, nodes=select, **style)
    got = set(drawn_segments(axis))
    check_settings(
        axis, got, style.get('line_settings', dict(color='C0')), 'simplices'
    )
    exp = edges_of(s for r in select for s in r.simplex_history)
    require(
        got == exp, 'simplices: {} missing and {} additional edges',
        len(exp - got), len(got - exp)
    )
    require(not drawn_points(axis), 'simplices: points drawn')
    check_limits(axis, limits)
    # stencil
    stcl = stencil_array(case['stencil'], dim)
    kwargs = dict(plot_sphere=case['sphere'], **style)
    origin_color = 'C1'
    if style:
        kwargs['sphere_settings'] = dict(color='#abcdef', alpha=0.5)
    if not case['origin']:
        kwargs['origin_settings'] = None
    elif style:
        origin_color = 'lime'
        kwargs['origin_settings'] = dict(color=origin_color)
    axes = Axes(case['axes'], dim)
    axis = axes(nf.search.plot.stencil, stcl, **kwargs)
    paths = drawn_paths(axis)
    shown = [axis.get_xlim(), axis.get_ylim()]
    if dim == 3:
        shown.append(axis.get_zlim())
    flat = stcl.reshape(-1, dim)
    size = max(1e-300, np.abs(flat).max())
    for i, (low, high) in enumerate(shown):
        require(
            low <= flat[:, i].min() + 1e-9 * size and
            high >= flat[:, i].max() - 1e-9 * size,
            'stencil: limits {} do not show the vertices', (low, high)
        )
    if case['sphere'] and dim == 2:
        # the unit circle
        circle = [p for p in paths if len(p) > 50]
        require(circle, 'stencil: no circle drawn')
        for path in circle:
            require(
                all(abs(math.hypot(*p) - 1) < 1e-9 for p in path),
                'stencil: circle has another radius'
            )
            keys = {frozenset(e) for e in zip(path, path[1:])}
            check_settings(
                axis, keys, kwargs.get('sphere_settings', dict(color='C2')),
                'stencil sphere'
            )
        paths = [p for p in paths if len(p) <= 50]
    check_sphere(axis, case['sphere'] and dim == 3)
    got = set(
        frozenset([a, b]) for p in paths for a, b in zip(p, p[1:])
    )
    exp = edges_of(stcl)
    require(
        got == exp, 'stencil: {} missing and {} additional edges',
        len(exp - got), len(got - exp)
    )
    pts = [p for p, _ in drawn_points(axis)]
    require(
        pts == ([(0.,) * dim] if case['origin'] else []),
        'stencil: points {} drawn', pts
    )
    for colors in point_colors(axis).values():
        require(
            colors == {to_rgba(origin_color)[:3]},
            'stencil: origin has color {} instead of {}', colors, origin_color
        )
    check_settings(
        axis, exp, style.get('line_settings', dict(color='C0')), 'stencil'
    )
    if case['draw']:
        axes.draw(axis)
    plt.close('all')
    return Report(
        len(cont.nodes) > 0 and len(cont.rejected_results) > 0,
        ['{}d'.format(dim), case['axes']]
    )


# -- identify ---------------------------------------------------------------

@st.composite
def identify_plot_cases(draw):
    box = draw(boxes(dims=(2, 3)))
    dim = len(box['limits'])
    objects = []
    for _ in range(draw(st.integers(0, 4))):
        kind = draw(st.sampled_from(['point', 'line', 'line', 'none']))
        obj = dict(kind=kind)
        num = draw(st.integers(1, 12))
        obj['num'] = num
        obj['seed'] = draw(st.integers(0, 10**6))
        if kind == 'line':
            obj['graph'] = draw(st.sampled_from(
                ['path', 'cycle', 'random', 'branched', 'empty', 'periodic',
                 'two cycles', 'complete']
            ))
        elif kind == 'none':
            obj['dimension'] = draw(st.sampled_from([None, 1, 2, 3]))
        objects.append(obj)
    return dict(
        box, objects=objects,
        feature=draw(floats(0.02, 0.5)),
        axes=draw(st.sampled_from(['new', 'given', 'other-figure'])),
        single=draw(st.sampled_from(['none', 'fs', 'plain'])),
        draw=draw(weighted((4, False), (1, True))),
    )


def build_graph(kind, num, rng, box, step):
    def position():
        return tuple(
            rng.uniform(lo, hi) for lo, hi in zip(box.lo, box.hi)
        )

    def follow(pos):
        res = [x + rng.uniform(-1, 1) * step for x in pos]
        # through the boundary of the box
        return tuple(
            (x - lo) % s + lo for x, lo, s in zip(res, box.lo, box.size)
        )

    nodes = [position()]
    for _ in range(num - 1):
        nodes.append(
            follow(nodes[-1]) if kind in ('periodic', 'cycle', 'path')
            else position()
        )
    graph = nx.Graph()
    graph.add_nodes_from(nodes)
    if kind in ('path', 'periodic'):
        graph.add_edges_from(zip(nodes, nodes[1:]))
        if kind == 'periodic' and num > 2 and rng.random() < 0.5:
            graph.add_edge(nodes[-1], nodes[0])
    elif kind == 'cycle':
        graph.add_edges_from(zip(nodes, nodes[1:]))
        if num > 2:
            graph.add_edge(nodes[-1], nodes[0])
    elif kind == 'branched':
        for i in range(1, num):
            graph.add_edge(nodes[i], nodes[rng.randrange(i)])
    elif kind == 'complete':
        graph.add_edges_from(itertools.combinations(nodes[:6], 2))
    elif kind == 'random':
        for _ in range(2 * num):
            a, b = rng.choice(nodes), rng.choice(nodes)
            if a != b:
                graph.add_edge(a, b)
    elif kind == 'two cycles' and num > 5:
        half = num // 2
        for part in (nodes[:half], nodes[half:]):
            graph.add_edges_from(zip(part, part[1:]))
            if len(part) > 2:
                graph.add_edge(part[-1], part[0])
    return graph


def check_edges(segments, graphs, limit):
    """
    limit : length (of the plain difference) above which edges are omitted.
    """
    required, optional, omitted = Counter(), Counter(), 0
    for graph in graphs:
        for a, b in graph.edges:
            length = math.dist(a, b)
            key = frozenset([a, b])
            if limit is None or length < limit * (1 - 1e-9):
                required[key] += 1
            elif length <= limit * (1 + 1e-9):
                optional[key] += 1
            else:
                omitted += 1
    left = Counter(segments)
    for key in list(left):
        if len(key) == 1:
            # zero length
            del left[key]
    for key, num in required.items():
        require(
            left[key] >= num, 'edge {} is drawn {} times instead of {}',
            sorted(key), left[key], num
        )
        left[key] -= num
    for key, num in optional.items():
        left[key] = max(0, left[key] - num)
    extra = [sorted(k) for k, v in left.items() if v > 0]
    require(
        not extra, '{} lines drawn which are not edges of the graph, longer '
        'than twice the feature size, or drawn before: {}', len(extra),
        extra[:2]
    )
    return omitted


def run_identify_plots(case):
    box = Box(case['limits'], case['periodic'])
    fs = case['feature'] * min(box.size)
    objects = []
    points = Counter()
    graphs = []
    branched = False
    for spec in case['objects']:
        rng = random.Random(spec['seed'])
        if spec['kind'] == 'line':
            graph = build_graph(
                spec['graph'], spec['num'], rng, box, 1.5 * fs
            )
            degrees = Counter(d for _, d in graph.degree)
            branched = branched or max(degrees) > 2
            degrees.pop(2, None)
            obj = IdentificationResult(
                positions=list(graph.nodes), dimension=1,
                shape=NodalLine(graph, degrees)
            )
            if graph.edges:
                graphs.append(graph)
            else:
                points.update(list(graph.nodes))
        else:
            positions = [
                tuple(rng.uniform(lo, hi) for lo, hi in zip(box.lo, box.hi))
                for _ in range(spec['num'])
            ]
            if spec['kind'] == 'point':
                obj = IdentificationResult(
                    positions=positions, dimension=0,
                    shape=NodalPoint(np.array(positions[0]))
                )
                points[positions[0]] += 1
            else:
                obj = IdentificationResult(
                    positions=positions, dimension=spec['dimension']
                )
                points.update(positions)
        objects.append(obj)
    cont = IdentificationResultContainer(
        coordinate_system=CoordinateSystem(
            limits=[tuple(x) for x in case['limits']],
            periodic=case['periodic']
        ), feature_size=fs, results=objects
    )
    axes = Axes(case['axes'], box.dim)
    axis = axes(nf.identify.plot.result, cont)
    got = Counter(p for p, _ in drawn_points(axis))
    require(
        got == points, 'points {} instead of {}', sorted(got.elements())[:5],
        sorted(points.elements())[:5]
    )
    omitted = check_edges(drawn_segments(axis), graphs, 2 * fs)
    check_limits(axis, case['limits'])
    # one color per object
    by_point = point_colors(axis)
    by_segment = segment_colors(axis)
    used = {}
    # equal objects (same seed) are drawn on top of each other
    # (and there are ten colors)
    separate = len(objects) <= 10 and (
        len({o['seed'] for o in case['objects']}) == len(objects)
    )
    for i, obj in enumerate(objects if separate else []):
        found = set()
        if isinstance(obj.shape, NodalLine) and obj.shape.graph.edges:
            for edge in obj.shape.graph.edges:
                found |= by_segment.get(frozenset(edge), set())
        elif isinstance(obj.shape, NodalPoint):
            found |= by_point[tuple(map(float, obj.shape.position))]
        else:
            for pos in obj.positions:
                found |= by_point[tuple(pos)]
        require(
            len(found) <= 1, 'an object is drawn in several colors {}', found
        )
        for color in found:
            require(
                color not in used, 'objects {} and {} are drawn in the same '
                'color', used.get(color), i
            )
            used[color] = i
    if case['draw']:
        axes.draw(axis)
    # a single shape
    if case['single'] != 'none':
        for obj in objects[:2]:
            if obj.shape is None:
                continue
            plt.close('all')
            axis = plt.figure().add_subplot(
                111, projection='3d' if box.dim == 3 else None
            )
            kwargs = dict(feature_size=fs) if case['single'] == 'fs' else {}
            if isinstance(obj.shape, NodalPoint):
                nf.identify.plot.nodal_point(
                    obj.shape, axis=axis, color='C4', **kwargs
                )
                require(
                    [p for p, _ in drawn_points(axis)] ==
                    [tuple(map(float, obj.shape.position))],
                    'nodal point not drawn at its position'
                )
                require(
                    list(point_colors(axis).values()) ==
                    [{to_rgba('C4')[:3]}], 'nodal point has another color'
                )
            elif obj.shape.graph.edges:
                nf.identify.plot.nodal_line(
                    obj.shape, axis=axis, color='C4', **kwargs
                )
                require(
                    all(c == {to_rgba('C4')[:3]}
                        for c in segment_colors(axis).values()),
                    'nodal line has another color'
                )
                check_edges(
                    drawn_segments(axis), [obj.shape.graph],
                    2 * fs if kwargs else None
                )
    plt.close('all')
    return Report(
        bool(graphs) and (omitted > 0 or branched), [
            '{}d'.format(box.dim), 'omitted' if omitted else 'all'
        ]
    )


# -- large results ------------------------------------------------------------

@st.composite
def large_cases(draw):
    box = draw(boxes(dims=(2, 3)))
    return dict(
        box, results=draw(st.sampled_from([0, 3, 60, 200, 400])),
        objects=draw(st.sampled_from([0, 1, 1, 2, 10, 11, 15, 24])),
        positions=draw(st.sampled_from([3, 20, 120, 300, 1300])),
        lines=draw(st.booleans()),
        feature=draw(floats(0.02, 0.5)),
        axes=draw(st.sampled_from(['new', 'given', 'other-figure'])),
        select=draw(st.sampled_from(['nodes', 'some', 'rejected'])),
        history=draw(st.sampled_from([1, 2, 40, 250])),
        stencil=draw(stencils(len(box['limits']), none=False)),
        seed=draw(st.integers(0, 10**6)),
    )


def run_large(case):
    rng = random.Random(case['seed'])
    dim = len(case['limits'])
    objects = []
    for i in range(case['objects']):
        kind = rng.choice(['point', 'line', 'line', 'none'])
        if case['lines']:
            kind = 'line'
        most = max(3, min(case['positions'], (
            1300 if kind == 'none' else 600
        ) // case['objects']))
        objects.append(dict(
            kind=kind,
            num=rng.randint(1 if case['objects'] > 2 else most // 2 + 1, most),
            seed=case['seed'] + i, dimension=rng.choice([None, 2, 3]),
            graph=rng.choice(['path', 'cycle', 'random', 'branched',
                              'periodic', 'two cycles'])
        ))
    if case['objects'] == 1 and rng.random() < 0.6:
        objects[0].update(kind='none', num=rng.choice([40, 400, 1300]))
    report = run_identify_plots(dict(
        case, objects=objects, single=rng.choice(['none', 'fs', 'plain']),
        draw=False
    ))
    history = case['history'] if case['results'] < 10 else 1
    results = [
        [[rng.random() for _ in range(dim)],
         rng.choice([0., 0.1, 0.3, 0.4999, 0.5, 0.6, 2.]),
         rng.random() < 0.75] for _ in range(case['results'])
    ]
    other = run_search_plots(dict(
        case, results=results, refined=[], sphere=False, origin=True,
        style=None, draw=False, history=history
    ))
    return Report(report.nontrivial or other.nontrivial, [
        'objects-{}'.format(case['objects']),
        'results-{}'.format(case['results'])
    ])


SUBS = [
    Sub('large', large_cases(), run_large, 48, 1500, shards=16),
    Sub('search', search_plot_cases(), run_search_plots, 480, 8000,
        shards=16),
    Sub('identify', identify_plot_cases(), run_identify_plots, 800, 16000,
        shards=16),
]
