"""Shared generators, oracles and helpers of the property checks."""

import asyncio
import itertools
import math
import os
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import nodefinder as nf
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.search import run, run_async
from nodefinder.search.result import (
    ControllerState, JoinedMinimizationResult, MinimizationResult,
    SearchResultContainer
)

from core import Hang, Report, Sub, Violation, derive_seed, require

CUTOFF_FACTOR = 3


def _find(name):
    """A class of nodefinder, wherever it is defined."""
    for module in list(sys.modules.values()):
        if getattr(module, '__name__', '').split('.')[0] == 'nodefinder':
            if name in vars(module):
                return vars(module)[name]
    raise ImportError(name)


PositionQueue = _find('PositionQueue')
SimplexQueue = _find('SimplexQueue')


def scratch_dir():
    return tempfile.mkdtemp(dir=os.environ['NFVERIF_SCRATCH'])


@st.composite
def _weighted(draw, options, index):
    return draw(options[draw(st.sampled_from(index))])


def weighted(*pairs):
    """Strategy choosing between values / strategies with integer weights."""
    options = []
    index = []
    for weight, value in pairs:
        if not isinstance(value, st.SearchStrategy):
            value = st.just(value)
        # (Hypothesis ignores repeated strategies in one_of)
        index.extend([len(options)] * weight)
        options.append(value)
    return _weighted(options, index)


def floats(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


def dyadic(lo, hi, bits):
    """Multiples of 2**-bits between lo and hi."""
    scale = 2**bits
    return st.integers(int(math.ceil(lo * scale)), int(math.floor(hi * scale))
                       ).map(lambda i: i / scale)


# ---------------------------------------------------------------------------
# Box geometry oracle (independent of nodefinder)
# ---------------------------------------------------------------------------

class Box:
    def __init__(self, limits, periodic):
        self.lo = [min(x) for x in limits]
        self.hi = [max(x) for x in limits]
        self.size = [h - l for l, h in zip(self.lo, self.hi)]
        self.periodic = periodic
        self.dim = len(self.lo)

    def delta(self, p, q):
        """Shortest displacement from p to q (some choice in case of ties)."""
        res = []
        for a, b, s in zip(p, q, self.size):
            d = float(b) - float(a)
            if self.periodic:
                d = math.remainder(d, s)
            res.append(d)
        return res

    def dist(self, p, q):
        return math.sqrt(sum(d * d for d in self.delta(p, q)))

    def dist_many(self, p, qs):
        """Distances from p to each row of qs."""
        qs = np.asarray(qs, dtype=float).reshape(-1, self.dim)
        d = qs - np.asarray(p, dtype=float)
        if self.periodic:
            size = np.array(self.size)
            d = d - size * np.round(d / size)
        return np.sqrt((d * d).sum(axis=-1))

    def scale(self):
        return max(self.size)


# ---------------------------------------------------------------------------
# Gap functions, described by JSON
# ---------------------------------------------------------------------------

def make_gap(spec, limits, periodic):
    """
    Create a (pure Python, deterministic) gap function. Positions in ``spec``
    are fractional coordinates.
    """
    if spec.get('unit'):
        # in other units of length, with the same values
        unit = spec['unit']
        plain = make_gap(
            dict(spec, unit=None), [[x / unit for x in lim] for lim in limits],
            periodic
        )
        return lambda pos: plain([float(x) / unit for x in pos])
    box = Box(limits, periodic)
    lo, size, dim = box.lo, box.size, box.dim
    kind = spec['kind']
    offset = spec.get('offset', 0.)
    remainder = math.remainder

    if kind == 'pts':
        # minimum over several nodes: scale * distance**power + offset
        nodes = [
            (
                [l + f * s for l, f, s in zip(lo, node['frac'], size)],
                node.get('scale', 1.), node.get('power', 1),
                node.get('offset', 0.)
            ) for node in spec['nodes']
        ]

        def gap(pos):
            best = math.inf
            pos = [float(x) for x in pos]
            for center, scale, power, off in nodes:
                acc = 0.
                for x, c, s in zip(pos, center, size):
                    d = x - c
                    if periodic:
                        d = remainder(d, s)
                    acc += d * d
                dist = math.sqrt(acc)
                val = scale * (dist * dist if power == 2 else dist) + off
                if val < best:
                    best = val
            return best
    elif kind == 'wave':
        # smooth periodic nodal lines (2D) / surfaces (3D), points (1D)
        wave, phase, amp = spec['wave'], spec['phase'], spec.get('amp', 1.)
        power = spec.get('power', 1)

        def gap(pos):
            arg = phase
            for x, l, s, w in zip(pos, lo, size, wave):
                arg += w * (float(x) - l) / s
            val = abs(amp * math.sin(math.pi * arg))
            return val**power
    elif kind == 'line':
        # |n . (frac - p) + c * |t|**2|: nodal lines which leave the box
        normal, point, curv = spec['normal'], spec['point'], spec.get('curv', 0)
        amp = spec.get('amp', 1.)

        def gap(pos):
            acc = 0.
            quad = 0.
            for x, l, s, n, p in zip(pos, lo, size, normal, point):
                f = (float(x) - l) / s - p
                acc += n * f
                quad += f * f
            return abs(amp * (acc + curv * quad))
    elif kind == 'const':
        val = spec['value']

        def gap(pos):
            return val
    elif kind == 'bumpy':
        # several local minima on top of a cone
        center = [l + f * s for l, f, s in zip(lo, spec['frac'], size)]
        freq, height = spec['freq'], spec['height']

        def gap(pos):
            acc = 0.
            rip = 0.
            for x, c, s in zip(pos, center, size):
                d = float(x) - c
                if periodic:
                    d = remainder(d, s)
                acc += d * d
                rip += math.sin(freq * math.pi * d / s)**2
            return math.sqrt(acc) + height * rip
    else:
        raise ValueError(kind)

    if offset:
        return lambda pos: gap(pos) + offset
    return gap


class LoggedGap:
    """Gap function which records all its calls."""

    def __init__(self, func, limit=None):
        self.func = func
        self.calls = []
        self.values = []
        self.limit = limit

    def __call__(self, pos):
        key = tuple(float(x) for x in pos)
        if self.limit is not None and len(self.calls) >= self.limit:
            raise Violation(
                'more than {} evaluations of the gap function'.format(
                    self.limit
                )
            )
        val = self.func(key)
        self.calls.append(key)
        self.values.append(val)
        return val


# ---------------------------------------------------------------------------
# Search cases
# ---------------------------------------------------------------------------

@st.composite
def boxes(draw, dims=(1, 2, 3), periodic=None, simple=False):
    dim = draw(st.sampled_from(list(dims)))
    if periodic is None:
        periodic = draw(st.booleans())
    limits = []
    for _ in range(dim):
        if simple:
            lo = draw(st.sampled_from([0., -1., -0.5, 2.]))
            size = draw(st.sampled_from([1., 2., 0.5]))
        else:
            lo = draw(st.one_of(
                st.sampled_from([0., -1., -0.5, 1.]), floats(-3, 3)
            ))
            size = draw(st.one_of(
                st.sampled_from([1., 2., 0.5]), floats(0.4, 2.5)
            ))
        lim = [lo, lo + size]
        if draw(weighted((4, False), (1, True))):
            lim.reverse()
        limits.append(lim)
    return dict(limits=limits, periodic=periodic)


def fracs(edge=True):
    opts = [(5, floats(0.02, 0.98))]
    if edge:
        opts.append((1, st.sampled_from([0., 1e-3, 0.5, 0.999])))
    return weighted(*opts)


@st.composite
def pts_gap(draw, dim, max_nodes=3, fake=True, powers=(1, 1, 2)):
    nodes = []
    for _ in range(draw(st.integers(1, max_nodes))):
        nodes.append(dict(
            frac=[draw(fracs()) for _ in range(dim)],
            scale=draw(st.sampled_from([1., 1., 0.5, 3.])),
            power=draw(st.sampled_from(list(powers))),
            offset=0.,
        ))
    if fake and draw(st.booleans()):
        # local minimum which is not a node
        nodes.append(dict(
            frac=[draw(fracs()) for _ in range(dim)],
            scale=1., power=1, offset=draw(st.sampled_from([0.02, 0.1]))
        ))
    return dict(kind='pts', nodes=nodes)


@st.composite
def line_gap(draw, dim, periodic):
    if periodic:
        return dict(
            kind='wave',
            wave=[draw(st.sampled_from([2, 2, 0, 2, -2])) if i else 2
                  for i in range(dim)],
            phase=draw(floats(-1, 1)),
            amp=draw(st.sampled_from([1., 0.3])),
            power=draw(st.sampled_from([1, 1, 2])),
        )
    return dict(
        kind='line',
        normal=[draw(st.one_of(floats(0.3, 1), floats(-1, -0.3)))
                for _ in range(dim)],
        point=[draw(floats(0.2, 0.8)) for _ in range(dim)],
        curv=draw(st.sampled_from([0., 0., 0.3, -0.2])),
        amp=draw(st.sampled_from([1., 0.3])),
    )


@st.composite
def meshes(draw, dim, max_total=10):
    res = []
    total = 1
    for _ in range(dim):
        num = draw(st.integers(1, max(1, min(4, max_total // total))))
        res.append(num)
        total *= num
    return res


@st.composite
def stencils(draw, dim, none=True, auto=True):
    opts = ['mesh', 'custom', 'custom']
    if none:
        opts.append('none')
    if auto:
        opts.append('auto')
    kind = draw(st.sampled_from(opts))
    if kind == 'none':
        return None
    if kind == 'auto':
        if dim == 3:
            # a sphere stencil with less points, to limit the cost
            return dict(kind='sphere', num=draw(st.integers(3, 8)))
        return dict(kind='auto')
    if kind == 'mesh':
        size = [1] * dim
        if draw(st.booleans()):
            size[draw(st.integers(0, dim - 1))] = 2
        return dict(
            kind='mesh', size=size, mult=draw(st.sampled_from([1.5, 2.5]))
        )
    simplices = []
    for _ in range(draw(st.integers(1, 3))):
        origin = [draw(st.sampled_from([-2., -1.25, 1.25, 2., 0.]))
                  for _ in range(dim)]
        simplices.append([origin] + [
            [o + (draw(st.sampled_from([0.5, 1., -1., 0.75])) if j == i else 0.)
             for j, o in enumerate(origin)]
            for i in range(dim)
        ])
    return dict(kind='custom', simplices=simplices)


def make_stencil(spec, dim):
    ref = nf.search.refinement_stencil
    if spec is None:
        return None
    kind = spec['kind']
    if kind == 'auto':
        return 'auto'
    if kind == 'mesh':
        return ref.get_mesh_stencil(
            mesh_size=spec['size'], dist_multiplier=spec['mult']
        )
    if kind == 'sphere':
        return ref.get_sphere_stencil(num_points=spec['num'])
    if kind == 'circle':
        return ref.get_circle_stencil(num_points=spec['num'])
    return np.array(spec['simplices'], dtype=float)


def stencil_array(spec, dim):
    """The stencil as an array, with 'auto' resolved."""
    res = make_stencil(spec, dim)
    if isinstance(res, str):
        res = nf.search.refinement_stencil.get_auto_stencil(dim=dim)
    return res


@st.composite
def search_cases(
    draw, dims=(1, 1, 2, 2, 2, 3), periodic=None, stencil='any',
    fake=None, parallel=None, lines=True, max_mesh=8, independent=False,
    max_nodes=3, nm=True, units=True
):
    """
    A search problem with all its options. With ``independent``, minimizations
    do not influence each other.
    """
    box = draw(boxes(dims=dims, periodic=periodic))
    dim = len(box['limits'])
    periodic = box['periodic']
    min_size = min(abs(b - a) for a, b in box['limits'])
    case = dict(box)
    is_line = lines and draw(weighted((3, False), (1, True)))
    if is_line:
        rel = draw(floats(0.8, 1.6) if dim < 3 else floats(1.6, 3.))
        case['gap'] = draw(line_gap(dim, periodic))
        case['threshold'] = draw(st.sampled_from([1e-2, 1e-3]))
    else:
        rel = draw(weighted(
            (4, floats(0.1, 0.6)), (1, floats(0.6, 4.)), (1, floats(0.02, 0.1))
        ))
        if dim == 3:
            rel = max(rel, 0.1)
        case['gap'] = draw(pts_gap(dim, max_nodes=max_nodes))
        case['threshold'] = draw(st.sampled_from([1e-2, 1e-3, 1e-5]))
    case['feature_size'] = rel * min_size
    # Nodes scatter over a ball whose radius follows from the threshold; keep
    # this comparable to the cutoff to limit the number of refinements.
    if not is_line:
        cutoff = case['feature_size'] / CUTOFF_FACTOR
        for node in case['gap']['nodes']:
            if node['power'] == 2:
                radius = math.sqrt(case['threshold'] / node['scale'])
            else:
                radius = case['threshold'] / node['scale']
            if radius > 2 * cutoff:
                node['power'] = 1
                node['scale'] = max(node['scale'], case['threshold'] / cutoff)
    case['mesh'] = draw(meshes(dim, max_total=max_mesh))
    if independent or stencil is None:
        case['stencil'] = None
    else:
        case['stencil'] = draw(stencils(dim, none=(stencil == 'any')))
    if independent:
        case['fake'] = False
        case['simplex_check_cutoff'] = dim + 1
    else:
        case['fake'] = draw(st.booleans()) if fake is None else fake
        case['simplex_check_cutoff'] = draw(weighted(
            (3, 0), (1, st.integers(1, dim + 1))
        ))
    case['parallel'] = (
        draw(weighted((2, 1), (3, st.integers(2, 6)), (1, 50)))
        if parallel is None else parallel
    )
    case['recheck'] = draw(weighted((3, True), (1, False)))
    case['recheck_count'] = draw(weighted((3, 0), (1, st.integers(1, 3))))
    opts = {}
    if nm:
        which = draw(weighted(
            (3, 'default'), (1, 'maxiter'), (1, 'maxfev'), (1, 'tol'),
            (1, 'fprime')
        ))
        if which == 'maxiter':
            opts['maxiter'] = draw(st.integers(1, 60))
        elif which == 'maxfev':
            opts['maxfev'] = draw(st.integers(1, 100))
        elif which == 'tol':
            opts['xtol'] = draw(st.sampled_from([0.1, 1e-2, 1e-3])) * min_size
            opts['ftol'] = draw(st.sampled_from([1e-1, 1e-3, 1e-6]))
        elif which == 'fprime':
            opts['fprime_cutoff'] = draw(st.sampled_from([3., 10., 1.5]))
    case['nm'] = opts
    where = draw(weighted((14, 'plain'), (2, 'units'), (1, 'far')))
    if where == 'units' and units:
        unit = draw(st.sampled_from([2.**-8, 2.**8]))
        case['limits'] = [[x * unit for x in lim] for lim in case['limits']]
        case['feature_size'] *= unit
        case['gap']['unit'] = unit
        if 'xtol' in opts:
            opts['xtol'] *= unit
        if 'fprime_cutoff' in opts:
            opts['fprime_cutoff'] /= unit
    elif where == 'far':
        shift = draw(st.sampled_from([100., -300.]))
        case['limits'] = [[x + shift for x in lim] for lim in case['limits']]
    return case


def search_kwargs(case, **override):
    dim = len(case['limits'])
    kwargs = dict(
        limits=[tuple(x) for x in case['limits']],
        periodic=case['periodic'],
        initial_mesh_size=tuple(case['mesh']),
        refinement_stencil=make_stencil(case.get('stencil'), dim),
        gap_threshold=case['threshold'],
        feature_size=case['feature_size'],
        use_fake_potential=case['fake'],
        nelder_mead_kwargs=dict(case['nm']),
        num_minimize_parallel=case['parallel'],
        recheck_pos_dist=case['recheck'],
        recheck_count_cutoff=case['recheck_count'],
        simplex_check_cutoff=case['simplex_check_cutoff'],
    )
    kwargs.update(override)
    return kwargs


def run_search(case, gap=None, limit=2000000, **override):
    """Run the search with a logged gap function."""
    if gap is None:
        gap = LoggedGap(
            make_gap(case['gap'], case['limits'], case['periodic']),
            limit=limit
        )
    return run(gap, **search_kwargs(case, **override)), gap


# ---------------------------------------------------------------------------
# Results
# ---------------------------------------------------------------------------

def first_simplex(res):
    """The simplex from which a minimization was started."""
    return np.asarray(res.simplex_history)[0]


def simplex_key(simplex, digits=9):
    return tuple(sorted(
        tuple(round(float(x), digits) + 0. for x in v) for v in simplex
    ))


def result_key(res):
    """Everything in a minimization result, hashable."""
    parts = [
        tuple(map(float, res.pos)), float(res.value), bool(res.success),
        int(res.status), str(res.message), int(res.num_fev),
        int(res.num_iter),
        np.asarray(res.simplex_history, dtype=float).tobytes()
    ]
    if hasattr(res, 'fun_simplex_history'):
        parts.append(
            np.asarray(res.fun_simplex_history, dtype=float).tobytes()
        )
    return tuple(parts)


def sorted_keys(results):
    return sorted(result_key(r) for r in results)


def container_key(result):
    """Canonical content of a search result."""
    return dict(
        nodes=sorted_keys(result.nodes),
        rejected=sorted_keys(result.rejected_results),
        refined=sorted(
            tuple(map(float, pos)) for pos in result.refined_results
        ),
        limits=np.asarray(result.coordinate_system.limits).tolist(),
        periodic=bool(result.coordinate_system.periodic),
        gap_threshold=float(result.gap_threshold),
        dist_cutoff=float(result.dist_cutoff),
    )


def reference_mesh(limits, mesh, periodic):
    """The simplices of a starting mesh."""
    box = Box(limits, periodic)
    axes = []
    steps = []
    for lo, size, num in zip(box.lo, box.size, mesh):
        if periodic:
            pts = [lo + size * i / num for i in range(num)]
        elif num == 1:
            pts = [lo]
        else:
            pts = [lo + size * i / (num - 1) for i in range(num)]
        axes.append(pts)
        steps.append(size / (2 * num))
    res = []
    for vertex in itertools.product(*axes):
        simplex = [list(vertex)]
        for i, step in enumerate(steps):
            other = list(vertex)
            other[i] += step
            simplex.append(other)
        res.append(np.array(simplex))
    return res


# ---------------------------------------------------------------------------
# Invariants of search results, used by several checks
# ---------------------------------------------------------------------------

def check_sound(case, result, gap=None):
    """C03: nodes and rejected results."""
    box = Box(case['limits'], case['periodic'])
    tol = 1e-9 * max(1., max(abs(x) for lim in case['limits'] for x in lim))
    nodes = list(result.nodes)
    rejected = list(result.rejected_results)
    everything = list(result.minimization_results)
    require(
        len(nodes) + len(rejected) == len(everything),
        '{} nodes and {} rejected results, but {} minimization results',
        len(nodes), len(rejected), len(everything)
    )
    ids = [id(r) for r in nodes + rejected]
    require(len(set(ids)) == len(ids), 'a result is reported twice')
    require(
        set(ids) == set(id(r) for r in everything),
        'nodes and rejected results are not the minimization results'
    )
    require(len(result.nodes) == len(nodes), 'len(nodes) is wrong')
    threshold = case['threshold']
    for res in nodes:
        require(res.success, 'node was not successfully minimized')
        require(
            res.value <= threshold, 'node value {} exceeds threshold {}',
            res.value, threshold
        )
    for res in rejected:
        require(
            (not res.success) or res.value > threshold,
            'result with value {} (threshold {}) was rejected', res.value,
            threshold
        )
    require(
        float(result.gap_threshold) == threshold, 'wrong gap threshold {}',
        result.gap_threshold
    )
    require(
        math.isclose(
            result.dist_cutoff, case['feature_size'] / CUTOFF_FACTOR,
            rel_tol=1e-12
        ), 'wrong distance cutoff {}', result.dist_cutoff
    )
    require(
        np.asarray(result.coordinate_system.limits).tolist() ==
        [sorted(x) for x in case['limits']]
        and bool(result.coordinate_system.periodic) == case['periodic'],
        'wrong coordinate system {}', result.coordinate_system
    )
    for res in everything:
        pos = [float(x) for x in res.pos]
        require(len(pos) == box.dim, 'wrong dimension of {}', pos)
        if case['periodic']:
            for x, lo, hi in zip(pos, box.lo, box.hi):
                require(
                    lo - tol <= x <= hi + tol,
                    'position {} is outside of the limits', pos
                )
    if gap is not None:
        by_value = {}
        for call, val in zip(gap.calls, gap.values):
            by_value.setdefault(val, []).append(call)
        for res in everything:
            # Minimizations of degenerate functions can run away to huge
            # coordinates, which lose precision when moved into the box.
            match = [
                call for call in by_value.get(float(res.value), [])
                if box.dist(call, res.pos) <= 1e-7 * box.scale()
                + 1e-14 * max(abs(x) for x in call)
            ]
            require(
                match, 'value {} at {} was not returned by the gap function',
                res.value, list(res.pos)
            )
            size = min(max(abs(x) for x in call) for call in match)
            if size > 1e4:
                continue
            actual = gap.func(tuple(float(x) for x in res.pos))
            require(
                abs(actual - res.value) <= 1e-7 * max(1., abs(actual)),
                'gap at {} is {}, but the result has {}', list(res.pos),
                actual, res.value
            )


def check_coverage(case, result):
    """C06: refined positions."""
    box = Box(case['limits'], case['periodic'])
    cutoff = case['feature_size'] / CUTOFF_FACTOR
    tol = 1e-9 * max(
        box.scale(), max(abs(x) for lim in case['limits'] for x in lim)
    )
    refined = [tuple(map(float, p)) for p in result.refined_results]
    nodes = [tuple(map(float, n.pos)) for n in result.nodes]
    if case.get('stencil') is None:
        require(not refined, 'refinement without a stencil')
        return dict(nodes=len(nodes), refined=0)
    ref_arr = np.array(refined).reshape(-1, box.dim)
    node_arr = np.array(nodes).reshape(-1, box.dim)

    def margin(pos):
        """How far a position is outside of the box (maximum norm)."""
        if case['periodic']:
            return 0.
        return max(
            max(lo - x, x - hi, 0.)
            for x, lo, hi in zip(pos, box.lo, box.hi)
        )

    for pos in nodes:
        if margin(pos) > 0:
            continue
        dist = (
            np.min(box.dist_many(pos, ref_arr)) if len(refined) else math.inf
        )
        require(
            dist < cutoff + tol,
            'node {} is {} from the next refined position (cutoff {})', pos,
            dist, cutoff
        )
    close = []
    for i, pos in enumerate(refined):
        require(
            margin(pos) <= cutoff + tol,
            'refined position {} is outside of the box', pos
        )
        dist = np.min(box.dist_many(pos, node_arr)) if nodes else math.inf
        require(
            dist <= tol, 'refined position {} is not a node', pos
        )
        dists = box.dist_many(pos, ref_arr)
        dists[i] = math.inf
        close.append(set(np.flatnonzero(dists < cutoff - tol).tolist()))
    if case['recheck'] and close:
        # At least one order of the positions must be possible in which each
        # has at most 'recheck_count' positions before it: remove positions
        # with few neighbours from the end.
        left = dict(enumerate(close))
        while left:
            idx = min(left, key=lambda i: len(left[i]))
            require(
                len(left[idx]) <= case['recheck_count'],
                'refined positions have {} other refined positions within '
                'the cutoff, {} are allowed', len(left[idx]),
                case['recheck_count']
            )
            for other in left.pop(idx):
                left[other].discard(idx)
    return dict(nodes=len(nodes), refined=len(refined))


# ---------------------------------------------------------------------------
# Asynchronous gap functions with a controlled order of completion
# ---------------------------------------------------------------------------

class ControlledGap:
    """
    Asynchronous gap function. Evaluations complete only when the schedule
    allows it.
    """
    def __init__(self, func, on_call=None):
        self.func = func
        self.calls = []
        self.values = []
        self.pending = []
        self.on_call = on_call

    async def __call__(self, pos):
        key = tuple(float(x) for x in pos)
        self.calls.append(key)
        val = self.func(key)
        self.values.append(val)
        fut = asyncio.get_event_loop().create_future()
        self.pending.append((fut, key, val))
        if self.on_call is not None:
            self.on_call(key)
        return await fut

    def complete(self, idx):
        fut, key, val = self.pending.pop(idx)
        if not fut.done():
            fut.set_result(val)
        return key


async def settle(gap, task, cycles=25):
    """Wait until the search does not call the gap function any more."""
    count = len(gap.calls)
    quiet = 0
    while quiet < cycles and not task.done():
        await asyncio.sleep(0)
        if len(gap.calls) != count:
            count = len(gap.calls)
            quiet = 0
        else:
            quiet += 1


def run_controlled(case, gap, schedule, at_rest=None, **override):
    """
    Run a search with a controlled gap function.

    schedule : random.Random
        Determines which of the pending evaluations complete next.
    at_rest : callable
        Called when the search waits for evaluations. Returns whether the
        state is as expected; the search gets more time otherwise.
    """
    async def main():
        task = asyncio.ensure_future(
            run_async(gap, **search_kwargs(case, **override))
        )
        mode = schedule.choice(['one', 'some', 'some', 'lifo', 'starve'])
        try:
            while True:
                await settle(gap, task)
                tries = 0
                while (
                    at_rest is not None and not task.done()
                    and not at_rest(tries >= 100)
                ):
                    tries += 1
                    await asyncio.sleep(0.02)
                    await settle(gap, task)
                if task.done():
                    break
                if not gap.pending:
                    await asyncio.sleep(0.001)
                    continue
                num = len(gap.pending)
                if mode == 'one':
                    gap.complete(schedule.randrange(num))
                elif mode == 'lifo':
                    gap.complete(num - 1)
                elif mode == 'starve' and num > 1:
                    # the oldest evaluation waits
                    for _ in range(schedule.randint(1, num - 1)):
                        gap.complete(schedule.randrange(1, len(gap.pending)))
                else:
                    for _ in range(schedule.randint(1, num)):
                        gap.complete(schedule.randrange(len(gap.pending)))
            return await task
        finally:
            task.cancel()

    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(main())
    finally:
        loop.close()
