"""C03: reported nodes are sound."""
import fractions
import random

from common import *
from checks import c04_nelder_mead as c04

ID = 'C03'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing of whole searches with a recording gap function'
NOTE = (
    'Random searches and random result containers; every result is checked '
    'against the recorded calls of the gap function and the definition of a '
    'node.'
)
RULE = (
    'long: minimizations with up to 1500 steps. '
    'search: random searches (1-3 dimensions; point-, line- and surface-like '
    'nodes, local minima above the threshold; all options) with a recording '
    'gap function. container: random minimization results put into a result '
    'container, with values at, just above and below the threshold; up to 600 results (sub "large"). '
    'values: the gap function returns numbers of different types, or infinite '
    'and undefined (NaN) ones. '
    'Non-trivial: there are both nodes and rejected results.'
)
ASSUMPTIONS = [
    'Gap functions are deterministic and have the periodicity of the box.',
]


def run_search_case(case, steps=None):
    result, gap = run_search(case)
    if steps is not None:
        steps.extend([0] + [n.num_iter for n in result.nodes])
    check_sound(case, result, gap)
    options = c04.options_of(case)
    for node in result.nodes:
        # converged: the last simplex is within the tolerances
        simplex = np.asarray(node.simplex_history)[-1]
        values = np.asarray(node.fun_simplex_history)[-1]
        size = np.max(np.abs(simplex[1:] - simplex[0]))
        spread = np.max(values) - np.min(values)
        require(
            size <= options['xtol'] * (1 + 1e-9)
            and spread <= options['ftol'] * (1 + 1e-9),
            'node has not converged: size {} (xtol {}), spread of the values '
            '{} (ftol {})', size, options['xtol'], spread, options['ftol']
        )
    nodes, rejected = len(result.nodes), len(result.rejected_results)
    num_fev = sum(r.num_fev for r in result.minimization_results)
    require(
        num_fev == len(gap.calls),
        'results report {} evaluations, there were {}', num_fev,
        len(gap.calls)
    )
    labels = ['nodes' if nodes else 'no-nodes', case['gap']['kind']]
    if rejected:
        labels.append('rejected')
    if any(not r.success for r in result.rejected_results):
        labels.append('unsuccessful')
    if any(r.success for r in result.rejected_results):
        labels.append('above-threshold')
    if any(not r.success and r.value <= case['threshold']
           for r in result.rejected_results):
        labels.append('unsuccessful-below-threshold')
    return Report(
        nodes and rejected, labels,
        dict(nodes=nodes, rejected=rejected, evaluations=len(gap.calls))
    )


@st.composite
def container_cases(draw):
    box = draw(boxes(dims=(1, 2, 3)))
    dim = len(box['limits'])
    thr = draw(st.sampled_from([0., 1e-6, 0.25, 2.0, -0.5]))
    results = []
    for _ in range(draw(st.integers(0, 12))):
        val = draw(st.one_of(
            st.sampled_from([
                thr, float(np.nextafter(thr, 10)), float(np.nextafter(thr, -10)),
                0., -1., thr + 1e-9, thr * 1.01, thr * 0.99
            ]), floats(-1, 5), st.just(math.inf)
        ))
        results.append(dict(
            frac=[draw(st.one_of(
                floats(0, 1), floats(-3, 4), st.sampled_from([0., 1., -1.])
            )) for _ in range(dim)],
            value=val, success=draw(weighted((3, True), (1, False))),
            joined=draw(weighted((3, False), (1, True))),
        ))
    return dict(
        box, threshold=thr, results=results,
        # (small cutoffs mean many cells)
        cutoff=draw(st.sampled_from(
            [[0.3, 0.05, 0., 5.], [0.3, 0.1, 5.], [0.5, 5.]][dim - 1]
        )),
        initial=draw(st.integers(0, 12)),
    )


def make_result(pos, value, success=True, joined=False, **kwargs):
    pos = np.array(pos, dtype=float)
    dim = len(pos)

    def single(scale=1., success=success):
        base = dict(
            pos=pos.copy(), value=value, success=success,
            status=0 if success else 1,
            message='Optimization terminated successfully.'
            if success else 'Maximum number of function evaluations has been '
            'exceeded.', num_fev=7, num_iter=3,
            simplex_history=np.arange(2. * (dim + 1) * dim).reshape(
                2, dim + 1, dim) * scale,
            fun_simplex_history=np.arange(2. * (dim + 1)).reshape(2, dim + 1)
        )
        base.update(kwargs)
        return MinimizationResult(**base)

    if joined:
        return JoinedMinimizationResult(
            child=single(), ancestor=single(2., not success)
        )
    return single()


def run_container_case(case):
    box = Box(case['limits'], case['periodic'])
    cs = CoordinateSystem(
        limits=[tuple(x) for x in case['limits']], periodic=case['periodic']
    )
    results, expected = [], []
    for entry in case['results']:
        pos = [lo + f * s for lo, f, s in zip(box.lo, entry['frac'], box.size)]
        results.append(make_result(
            pos, entry['value'], entry['success'], entry['joined']
        ))
        expected.append((
            pos, entry['success'] and entry['value'] <= case['threshold'],
            entry['value']
        ))
    num = min(case['initial'], len(results))
    cont = SearchResultContainer(
        coordinate_system=cs, minimization_results=results[:num],
        gap_threshold=case['threshold'], dist_cutoff=case['cutoff']
    )
    for res, (_, is_node, _) in zip(results[num:], expected[num:]):
        got = cont.add_result(res)
        require(
            bool(got) == is_node, 'adding a result returned {}, expected {}',
            got, is_node
        )
    node_ids = [id(r) for r in cont.nodes]
    rej_ids = [id(r) for r in cont.rejected_results]
    all_ids = [id(r) for r in cont.minimization_results]
    require(
        sorted(node_ids) == sorted(
            id(r) for r, e in zip(results, expected) if e[1]
        ), 'wrong set of nodes'
    )
    require(
        sorted(rej_ids) == sorted(
            id(r) for r, e in zip(results, expected) if not e[1]
        ), 'wrong set of rejected results'
    )
    require(
        sorted(all_ids) == sorted(id(r) for r in results),
        'minimization results are not all results'
    )
    require(len(cont.nodes) == len(node_ids), 'wrong number of nodes')
    tol = 1e-9 * max(
        [abs(x) for p, _, _ in expected for x in p] + box.size +
        [abs(x) for x in box.lo + box.hi]
    )
    for res, (pos, _, value) in zip(results, expected):
        require(res.value == value, 'value changed')
        require(box.dist(res.pos, pos) <= tol, 'position changed')
        if case['periodic']:
            for x, lo, hi in zip(res.pos, box.lo, box.hi):
                require(
                    lo - tol * 1e-5 <= x <= hi + tol * 1e-5,
                    'position {} is outside of the limits', list(res.pos)
                )
        else:
            require(
                [float(x) for x in res.pos] == pos, 'position changed'
            )
    require(
        cont.gap_threshold == case['threshold'] and
        cont.dist_cutoff == case['cutoff'], 'attributes changed'
    )
    return Report(
        node_ids and rej_ids, ['threshold' if any(
            v == case['threshold'] for _, _, v in expected
        ) else 'other']
    )


@st.composite
def large_cases(draw):
    box = draw(boxes(dims=(1, 2, 3)))
    return dict(
        box, threshold=draw(st.sampled_from([1e-3, 0.25])),
        num=draw(st.sampled_from([40, 150, 600])),
        # values of the nodes, and fraction of nodes
        good=draw(floats(0, 1)), joined=draw(floats(0, 1)),
        cells=draw(st.sampled_from([2, 6, 12])),
        seed=draw(st.integers(0, 2**32)),
    )


def run_large_case(case):
    rng = random.Random(case['seed'])
    box = Box(case['limits'], case['periodic'])
    thr = case['threshold']
    # few different values
    grid = [rng.uniform(-0.5, 1.5) for _ in range(5)]
    results = [dict(
        frac=[rng.choice([rng.random(), rng.choice(grid)])
              for _ in range(box.dim)],
        value=rng.choice([thr, 0., thr / 2, thr * rng.random()])
        if rng.random() < case['good'] else thr * rng.choice(
            [1 + 1e-9, 2., 1000.]),
        success=rng.random() < 0.8, joined=rng.random() < case['joined']
    ) for _ in range(case['num'])]
    return run_container_case(dict(
        case, results=results, initial=rng.choice([0, case['num'] // 2]),
        cutoff=max(box.size) / case['cells']
    ))


# -- numbers of other types, and undefined values ----------------------------

NUMBERS = {
    'int': int, 'int64': np.int64, 'float64': np.float64,
    'float32': np.float32, 'array': np.array,
    'fraction': fractions.Fraction, 'float': float, 'bool': bool
}
SPECIAL = {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf}


@st.composite
def value_cases(draw):
    special = draw(st.sampled_from(
        [[], [], ['nan'], ['inf'], ['nan', 'inf'], ['-inf']]
    ))
    case = draw(search_cases(lines=False, max_mesh=6, max_nodes=2))
    # (an infinite derivative can not be estimated)
    if special:
        case['nm'].pop('fprime_cutoff', None)
    if case['stencil'] is not None:
        case['feature_size'] = max(case['feature_size'], 0.3 * min(
            abs(b - a) for a, b in case['limits']
        ))
    case['threshold'] = draw(st.sampled_from([0.01, 0.125, 0.25]))
    return dict(
        case, special=special, rate=draw(st.sampled_from([0.02, 0.1, 0.4])),
        types=draw(st.lists(
            st.sampled_from(sorted(NUMBERS)), min_size=1, unique=True
        )),
        seed=draw(st.integers(0, 2**32))
    )


def run_value_case(case):
    plain = make_gap(case['gap'], case['limits'], case['periodic'])
    seed = case['seed']

    def value(pos):
        """Multiples of 1/8, or special values at some positions."""
        rng = random.Random(repr((seed, pos)))
        if case['special'] and rng.random() < case['rate']:
            return SPECIAL[rng.choice(case['special'])]
        return min(round(plain(pos) * 64) / 8, 2.**20)

    def typed(pos):
        val = value(pos)
        used.add('float')
        if not math.isfinite(val):
            return val
        options = [
            t for t in case['types']
            if (val == int(val) or t not in ('int', 'int64'))
            and (val in (0, 1) or t != 'bool')
        ]
        if not options:
            return val
        name = random.Random(repr((pos, seed))).choice(options)
        used.add(name)
        return NUMBERS[name](val)

    used = set()
    result, gap = run_search(case, gap=LoggedGap(value, limit=400000))
    other, _ = run_search(case, gap=LoggedGap(typed, limit=400000))
    if 'nan' not in case['special']:
        one, two = container_key(result), container_key(other)
        for key in one:
            require(
                one[key] == two[key], '{} differ if the gap function returns '
                'numbers of types {}', key, case['types']
            )
    box = Box(case['limits'], case['periodic'])
    values = {}
    for call, val in zip(gap.calls, gap.values):
        values.setdefault(repr(float(val)), []).append(call)
    for res in other.minimization_results:
        require(
            any(
                box.dist(call, res.pos) <= 1e-7 * box.scale()
                + 1e-14 * max(abs(x) for x in call)
                for call in values.get(repr(float(res.value)), [])
            ), 'value {} at {} was not returned by the gap function',
            res.value, list(res.pos)
        )
    for res in other.nodes:
        require(
            res.success and res.value <= case['threshold'],
            'node with value {}', res.value
        )
    for res in other.rejected_results:
        require(
            not (res.success and res.value <= case['threshold']),
            'result with value {} was rejected', res.value
        )
    require(
        len(other.minimization_results) == len(result.minimization_results),
        'a result was lost'
    )
    return Report(
        len(used) > 1 or case['special'],
        [s for s in case['special']] + sorted(used - {'float'})
    )


# -- minimizations with many steps ---------------------------------------------

@st.composite
def long_cases(draw):
    case = draw(search_cases(
        dims=(1, 2, 2, 3, 3), lines=False, max_mesh=3, nm=False, parallel=1,
        stencil=None, max_nodes=2
    ))
    for node in case['gap']['nodes']:
        node['offset'] = 0.
    scale = max(abs(x) for lim in case['limits'] for x in lim)
    case['nm'] = dict(
        xtol=scale * draw(st.sampled_from([1e-12, 1e-13, 1e-14])),
        ftol=draw(st.sampled_from([1., 1e-10])), maxiter=1500, maxfev=4000
    )
    return case


def run_long(case):
    most = []
    rep = run_search_case(case, most)
    return Report(max(most) >= 150, rep.labels + [
        'long' if max(most) >= 300 else 'medium'
    ])


SUBS = [
    Sub('long', long_cases(), run_long, 96, 3000, shards=16),
    Sub('large', large_cases(), run_large_case, 96, 3000),
    Sub('values', value_cases(), run_value_case, 320, 8000, shards=16),
    Sub('search', search_cases(), run_search_case, 640, 20000, shards=16),
    Sub('container', container_cases(), run_container_case, 2400, 40000),
]
