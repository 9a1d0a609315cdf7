"""C21: the fake potential repels from known nodes."""
from collections import Counter

from common import *
from checks import c04_nelder_mead as c04
from checks.c04_nelder_mead import Undecided, one_step, same_vertices

ID = 'C21'
LEVEL = 'exploration'
TECHNIQUE = (
    'differential property-based testing of both minimization stages against '
    'a reference potential and reference Nelder-Mead steps'
)
NOTE = (
    'Both stages of all minimizations of random searches are checked: each '
    'recorded value against the gap function plus a brute-force potential, '
    'each step against a reference, the transition between the stages, the '
    'stop criteria and the joined results. The potential is exactly known for '
    'sequential searches; for parallel ones it is bounded.'
)
RULE = (
    'Random searches with fake potential, sequential or parallel, also '
    'resumed with known nodes, and without history. Non-trivial: a first '
    'stage had a vertex with infinite value.'
)
ASSUMPTIONS = [
    'Distances closer than 1e-9 to the cutoff are not decided, and neither is '
    'the order of equal values. A first stage for which all values are '
    'infinite may or may not be treated as converged.'
]


@st.composite
def cases(draw):
    case = draw(search_cases(
        fake=draw(weighted((7, True), (1, False))), max_mesh=5,
        parallel=draw(weighted((3, 1), (1, None))),
        stencil=draw(weighted((3, 'yes'), (1, None))),
    ))
    if draw(st.booleans()):
        # simplices close to the nodes are not left out
        case['simplex_check_cutoff'] = len(case['limits']) + 1
    case['mode'] = draw(weighted(
        (4, 'single'), (2, 'resume'), (1, 'nohistory')
    ))
    if case['mode'] == 'resume':
        case['threshold2'] = case['threshold'] * draw(
            st.sampled_from([1, 1, 0.1])
        )
    return case





class Potential:
    """The gap function with the fake potential of the given nodes."""

    def __init__(self, box, func, cutoff, nodes, maybe=()):
        self.box = box
        self.func = func
        self.cutoff = cutoff
        self.nodes = np.array(nodes, dtype=float).reshape(-1, box.dim)
        self.maybe = np.array(maybe, dtype=float).reshape(-1, box.dim)

    def __call__(self, pos):
        tol = 1e-9 * max(self.box.scale(), max(abs(x) for x in pos), *(
            abs(x) for x in self.box.lo + self.box.hi
        ))
        near = False
        for arr, sure in [(self.nodes, True), (self.maybe, False)]:
            if len(arr):
                dist = self.box.dist_many(pos, arr)
                if np.any(dist < self.cutoff - tol):
                    if not sure:
                        raise Undecided
                    return math.inf
                if np.any(dist <= self.cutoff + tol):
                    near = True
        if near:
            raise Undecided
        return self.func(tuple(pos))


def first_stops(simplex, values, options):
    """Stop criteria of the first stage, and whether they are certain."""
    if math.isinf(values[0]):
        raise Undecided
    opts = dict(options, ftol=1e300)
    finite = [v if not math.isinf(v) else 1e290 for v in values]
    return c04.stop_status(simplex, finite, opts)


def check_stage(stage, func, options, box, labels, first):
    """A single Nelder-Mead run."""
    hist = np.asarray(stage.simplex_history).tolist()
    fhist = np.asarray(stage.fun_simplex_history).tolist()
    require(
        len(hist) == len(fhist) == stage.num_iter,
        'history of {} / {} entries for {} iterations', len(hist), len(fhist),
        stage.num_iter
    )
    dim = box.dim
    maxfev = options.get('maxfev', 200 * dim)
    maxiter = options.get('maxiter', 200 * dim)
    steps = 0
    for idx, (simplex, values) in enumerate(zip(hist, fhist)):
        require(
            all(a <= b for a, b in zip(values, values[1:])),
            'values are not sorted: {}', values
        )
        for vertex, val in zip(simplex, values):
            try:
                actual = func(tuple(vertex))
            except Undecided:
                labels['boundary'] += 1
                continue
            if math.isinf(actual) or math.isinf(val):
                require(
                    actual == val, 'value {} in the {} stage at {}, expected '
                    '{}', val, 'first' if first else 'second', vertex, actual
                )
                labels['inf'] += 1
            else:
                require(
                    abs(actual - val) <= 1e-12 * max(1, abs(actual)),
                    'value {} in the {} stage at {}, expected {}', val,
                    'first' if first else 'second', vertex, actual
                )
        try:
            if first:
                stops = first_stops(simplex, values, options)
            else:
                stops = c04.stop_status(simplex, values, options)
        except Undecided:
            stops = None
        last = idx == len(hist) - 1
        if stops is not None:
            if last and stage.num_fev >= maxfev:
                stops = stops | {1}
            if idx + 1 >= maxiter:
                stops = stops | {2}
        if last:
            if stops is not None:
                require(
                    stage.status in stops, 'the {} stage stopped with status '
                    '{}, but {} are fulfilled by {} {}',
                    'first' if first else 'second', stage.status, stops,
                    simplex, values
                )
            break
        if stops is not None:
            require(
                not stops, 'the {} stage went on although the stop criteria '
                '{} are fulfilled by {} {}', 'first' if first else 'second',
                stops, simplex, values
            )
        try:
            expected, _, kind = one_step(simplex, values, func)
        except Undecided:
            continue
        labels[kind] += 1
        steps += 1
        require(
            same_vertices(hist[idx + 1], expected),
            'step {} of the {} stage from {} {} leads to {}, expected {} ({})',
            idx, 'first' if first else 'second', simplex, values,
            hist[idx + 1], [list(v) for v in expected], kind
        )
    return steps


def check_joined(res, box):
    child, ancestor = res.child, res.ancestor
    for key in ('num_fev', 'num_iter'):
        require(
            getattr(res, key) == getattr(ancestor, key) + getattr(child, key),
            '{} is {}, but the stages have {} and {}', key, getattr(res, key),
            getattr(ancestor, key), getattr(child, key)
        )
    keys = ['simplex_history']
    if hasattr(child, 'fun_simplex_history'):
        keys.append('fun_simplex_history')
    for key in keys:
        joined = np.asarray(getattr(res, key))
        expected = np.concatenate([
            np.asarray(getattr(ancestor, key)), np.asarray(getattr(child, key))
        ])
        require(
            joined.shape == expected.shape and np.array_equal(joined, expected),
            '{} is not that of both stages', key
        )
    require(res.value == child.value, 'value is not that of the second stage')
    require(
        res.success == child.success and res.status == child.status
        and res.message == child.message,
        'success {} / status {} are not those of the second stage',
        res.success, res.status
    )
    final = np.asarray(child.simplex_history)[-1]
    scale = max(box.scale(), np.max(np.abs(final)))
    require(
        box.dist(res.pos, final[0]) <= 1e-12 * scale,
        'position {} is not the best vertex {} of the second stage',
        list(res.pos), final[0].tolist()
    )
    # transition
    last = np.asarray(ancestor.simplex_history)[-1]
    start = np.asarray(child.simplex_history)[0]
    expected = last[0] + 1.5 * (last - last[0])
    require(
        same_vertices(start, expected),
        'second stage starts from {}, expected {} (from {})', start.tolist(),
        expected.tolist(), last.tolist()
    )


def short_key(res):
    return (
        tuple(float(x) for x in res.pos), float(res.value), int(res.status),
        bool(res.success), int(res.num_fev), int(res.num_iter)
    )


def run_case(case):
    box = Box(case['limits'], case['periodic'])
    if not case['fake']:
        report = c04.run_steps(case)
        report.labels = ['single-stage'] + list(report.labels)
        return report
    known = []
    kwargs = {}
    threshold = case['threshold']
    if case['mode'] == 'resume':
        path = os.path.join(scratch_dir(), 'state.hdf5')
        run_search(case, use_fake_potential=False, save_file=path)
        threshold = case['threshold2']
        state = nf.io.load(path)
        old = list(state.result.minimization_results)
        known = [
            [float(x) for x in r.pos] for r in old
            if r.success and r.value <= threshold
        ]
        kwargs = dict(
            load=True, save_file=path, force_initial_mesh=True,
            simplex_check_cutoff=box.dim + 1, gap_threshold=threshold
        )
        num_old = len(old)
    result, gap = run_search(case, **kwargs)
    results = list(result.minimization_results)
    if case['mode'] == 'resume':
        results = [
            r for r in results if hasattr(r, 'ancestor')
        ]
        require(
            len(result.minimization_results) == num_old + len(results),
            'minimizations with a single stage'
        )
    cutoff = case['feature_size'] / CUTOFF_FACTOR
    options = c04.options_of(dict(case, threshold=threshold))
    require(
        sum(r.num_fev for r in results) == len(gap.calls),
        '{} evaluations reported, but there were {}',
        sum(r.num_fev for r in results), len(gap.calls)
    )
    labels = Counter()
    labels[case['mode']] += 1
    num_steps = 0
    final_nodes = [[float(x) for x in n.pos] for n in result.nodes]

    def check(res, nodes, maybe):
        check_joined(res, box)
        first = Potential(box, gap.func, cutoff, nodes, maybe)
        num = check_stage(res.ancestor, first, options, box, labels, True)
        return num + check_stage(
            res.child, gap.func, options, box, labels, False
        )

    if case['parallel'] > 1:
        labels['parallel'] += 1
        for res in results:
            num_steps += check(res, known, final_nodes)
    else:
        labels['sequential'] += 1
        left = {}
        for res in results:
            key = tuple(sorted(map(tuple, first_simplex(res).tolist())))
            left.setdefault(key, []).append(res)
        idx = 0
        nodes = list(known)
        while idx < len(gap.calls):
            simplex = tuple(sorted(gap.calls[idx:idx + box.dim + 1]))
            found = left.get(simplex)
            require(
                found, 'evaluation {} does not belong to a starting simplex',
                idx
            )
            # Equal starting simplices are not told apart
            found.sort(key=lambda r: nearest_call(r, gap, idx))
            res = found.pop(0)
            require(
                tuple(float(x) for x in np.asarray(
                    res.child.simplex_history
                )[0][0]) in gap.calls[idx + res.ancestor.num_fev:
                                      idx + res.num_fev],
                'the second stage is not evaluated after the first'
            )
            num_steps += check(res, nodes, ())
            idx += res.num_fev
            if res.success and res.value <= threshold:
                nodes.append([float(x) for x in res.pos])
    if case['mode'] == 'nohistory':
        short, _ = run_search(
            dict(case, nm=dict(case['nm'], keep_history=False))
        )
        require(
            sorted(map(short_key, short.minimization_results)) ==
            sorted(map(short_key, result.minimization_results)),
            'results without history are different'
        )
    return Report(
        labels['inf'] > 0, list(labels),
        dict(steps=num_steps, evaluations=len(gap.calls),
             minimizations=len(results), infinite=labels['inf'])
    )


def nearest_call(res, gap, idx):
    """Whether the evaluations of a result do not start at the given index."""
    last = tuple(float(x) for x in np.asarray(res.child.simplex_history)[-1][0])
    return last not in gap.calls[idx:idx + res.num_fev]


SUBS = [Sub('search', cases(), run_case, 800, 20000, shards=16)]
