"""C04: minimizations are faithful Nelder-Mead runs."""
import zlib
from collections import Counter
from fractions import Fraction

from common import *

ID = 'C04'
LEVEL = 'exploration'
TECHNIQUE = (
    'differential property-based testing against a reference Nelder-Mead in '
    'exact arithmetic'
)
NOTE = (
    'All evaluations, simplices, values, counters and stop reasons of random '
    'minimizations are compared to an independent reference implementation, '
    'exactly for dyadic problems in 1, 2 and 4 dimensions, and step by step '
    'for arbitrary problems. Ties are not compared.'
)
RULE = (
    'exact: starting meshes on dyadic boxes and gap functions of dyadic '
    'values with pseudo-random noise (all branches), compared completely. '
    'steps: random searches, each step of each minimization compared. long: '
    'until the limits are reached, compared as far as numbers are exact. limits: '
    'default and given limits for minimizations which do not converge. '
    'Non-trivial: at least 5 steps were compared.'
)
ASSUMPTIONS = [
    'Comparisons end where the textbook method does not define the outcome '
    '(equal values in a simplex), and, where numbers are not exact, at '
    'decisions closer than 1e-9.'
]

MAX_BITS = 44


class Undecided(Exception):
    """The reference does not determine what happens."""


class Inexact(Undecided):
    pass


def to_float(frac):
    if frac.denominator.bit_length() > 40:
        raise Inexact
    if abs(frac.numerator).bit_length() > MAX_BITS:
        raise Inexact
    return float(frac)


def reference(history, func, options):
    """
    Reference implementation in exact arithmetic. Yields for each iteration
    the list of evaluated positions, and the simplex with its values, and
    finally the status. The order of vertices with equal values is taken from
    the history given.
    """
    simplex = history[0]
    dim = len(simplex) - 1
    maxiter = options.get('maxiter')
    maxfev = options.get('maxfev')
    maxiter = 200 * dim if maxiter is None else maxiter
    maxfev = 200 * dim if maxfev is None else maxfev
    calls = []

    def evaluate(pos):
        pos = tuple(to_float(x) for x in pos)
        calls.append(pos)
        return func(pos)

    def combine(*terms):
        return tuple(
            sum(c * v[i] for c, v in terms) for i in range(dim)
        )

    state = []
    for vertex in simplex:
        vertex = tuple(Fraction(x) for x in vertex)
        state.append((evaluate(vertex), vertex))
    num_iter = 1
    while True:
        state.sort(key=lambda x: x[0])
        if (
            len(set(f for f, _ in state)) < len(state)
            and num_iter <= len(history)
        ):
            # (vertices which do not occur are left as they are)
            index = {
                tuple(Fraction(x) for x in v): i
                for i, v in reversed(list(enumerate(history[num_iter - 1])))
            }
            state.sort(key=lambda x: (x[0], index.get(x[1], -1)))
        yield dict(
            calls=calls, num_fev=len(calls), num_iter=num_iter,
            simplex=[tuple(to_float(x) for x in v) for _, v in state],
            values=[f for f, _ in state], status=None
        )
        statuses = set()
        if len(calls) >= maxfev:
            statuses.add(1)
        if num_iter >= maxiter:
            statuses.add(2)
        statuses |= stop_status(
            [[float(x) for x in v] for _, v in state], [f for f, _ in state],
            options
        )
        if statuses:
            yield dict(
                calls=calls, num_fev=len(calls), num_iter=num_iter,
                status=statuses
            )
            return
        best, worst = state[0], state[-1]
        others = state[:-1]
        center = combine(*[(Fraction(1, dim), v) for _, v in others])
        refl = combine((2, center), (-1, worst[1]))
        f_refl = evaluate(refl)
        shrink = False
        if f_refl < best[0]:
            exp = combine((3, center), (-2, worst[1]))
            f_exp = evaluate(exp)
            new = (f_exp, exp) if f_exp < f_refl else (f_refl, refl)
        elif f_refl < others[-1][0]:
            new = (f_refl, refl)
        elif f_refl < worst[0]:
            con = combine((Fraction(3, 2), center), (Fraction(-1, 2), worst[1]))
            f_con = evaluate(con)
            new = (f_con, con)
            shrink = not f_con <= f_refl
        else:
            con = combine((Fraction(1, 2), center), (Fraction(1, 2), worst[1]))
            f_con = evaluate(con)
            new = (f_con, con)
            shrink = not f_con < worst[0]
        if shrink:
            for i in range(1, dim + 1):
                pos = combine(
                    (Fraction(1, 2), best[1]), (Fraction(1, 2), state[i][1])
                )
                state[i] = (evaluate(pos), pos)
        else:
            state[-1] = new
        num_iter += 1


def stop_status(simplex, values, options):
    """The stop conditions which are fulfilled by the simplex."""
    res = set()
    arr = np.array(simplex)
    size = np.max(np.abs(arr[1:] - arr[0]))
    spread = max(values) - min(values)
    coord = np.max(np.abs(arr))
    if options.get('exact_tol'):
        margin = 0.
    else:
        margin = 1e-9
    for val, tol in [(size, options['xtol']), (spread, options['ftol'])]:
        noise = margin * tol + (1e-14 * coord if margin else 0)
        if val != tol and abs(val - tol) <= noise:
            raise Undecided
    if size <= options['xtol'] and spread <= options['ftol']:
        res.add(0)
    if options.get('fprime_cutoff') is not None:
        edge = max(
            math.dist(p, q) for p, q in itertools.combinations(simplex, 2)
        )
        if edge == 0:
            raise Undecided
        est = min(values) / edge
        if abs(est - options['fprime_cutoff']) <= 1e-9 * abs(est):
            raise Undecided
        if est > options['fprime_cutoff']:
            res.add(3)
    return res


def options_of(case):
    res = dict(
        xtol=0.03 * (case['feature_size'] / CUTOFF_FACTOR),
        ftol=0.05 * case['threshold']
    )
    res.update(case['nm'])
    return res


def check_final(res, hist, fhist, box):
    """Consistency of the result with its history."""
    require(
        len(hist) == len(fhist) == res.num_iter,
        'history of {} / {} entries for {} iterations', len(hist), len(fhist),
        res.num_iter
    )
    require(
        res.value == fhist[-1][0] == min(fhist[-1]),
        'value {} is not the best value of the final simplex {}', res.value,
        fhist[-1]
    )
    coord = max(1., np.max(np.abs(hist[-1][0])))
    require(
        box.dist(res.pos, hist[-1][0]) <= 1e-12 * max(coord, box.scale()),
        'position {} is not the best vertex {}', list(res.pos), hist[-1][0]
    )
    require(
        bool(res.success) == (res.status == 0), 'success is {} for status {}',
        res.success, res.status
    )
    for values in fhist:
        require(
            all(a <= b for a, b in zip(values, values[1:])),
            'values are not sorted: {}', values
        )


# -- exact comparison -------------------------------------------------------

def noisy_gap(spec):
    """Function of dyadic values for dyadic positions."""
    center, slope, amp, seed = (
        spec['center'], spec['slope'], spec['amp'], spec['seed']
    )
    base = {'l1': sum, 'max': max}[spec['norm']]
    bits = spec['bits']

    def gap(pos):
        pos = tuple(float(x) + 0. for x in pos)
        cone = base(abs(x - c) for x, c in zip(pos, center)) * slope
        noise = zlib.crc32(repr((seed, pos)).encode()) / 2**32
        return math.floor((cone + amp * noise) * 2**bits) / 2**bits

    return gap


@st.composite
def exact_cases(draw):
    dim = draw(weighted((2, 1), (5, 2), (2, 4)))
    limits = []
    for _ in range(dim):
        lo = draw(st.sampled_from([0., -1., -0.5, 0.25, 2.]))
        limits.append([lo, lo + draw(st.sampled_from([1., 2., 0.5, 4.]))])
    periodic = draw(weighted((3, False), (1, True)))
    mesh = []
    for _ in range(dim):
        # grid points are dyadic
        mesh.append(draw(
            st.sampled_from([1, 2, 4]) if periodic
            else st.sampled_from([1, 2])
        ))
    if dim == 4:
        mesh = [1 if i < 2 else m for i, m in enumerate(mesh)]
    gap = dict(
        center=[draw(dyadic(lo, hi, 4)) for lo, hi in limits],
        norm=draw(st.sampled_from(['l1', 'max'])),
        slope=draw(st.sampled_from([1., 0.25, 4.])),
        amp=draw(st.sampled_from([0.01, 0.1, 1., 10.])),
        seed=draw(st.integers(0, 2**31)),
        # few bits lead to equal values
        bits=draw(weighted((4, 20), (3, st.integers(0, 4)))),
    )
    nm = dict(
        xtol=draw(st.sampled_from([2.**-2, 2.**-3, 2.**-4, 2.**-5, 1.])),
        ftol=draw(st.sampled_from([2.**-4, 2.**-2, 1., 16., 0.])),
    )
    limit = draw(st.sampled_from(['iter', 'fev', 'none', 'both']))
    if limit in ('iter', 'both'):
        nm['maxiter'] = draw(weighted(
            (6, st.integers(1, 14)), (1, 0)
        ))
    if limit in ('fev', 'both'):
        nm['maxfev'] = draw(weighted((8, st.integers(1, 30)), (1, 0)))
    if draw(weighted((2, False), (1, True))):
        nm['fprime_cutoff'] = draw(weighted(
            (7, st.sampled_from([0.5, 2., 3.7, 16.])), (1, 0.)
        ))
    return dict(
        limits=limits, periodic=periodic, mesh=mesh, gap=gap, nm=nm,
        threshold=draw(st.sampled_from([0.1, 1., 100.])),
        # (few cells)
        feature_size=draw(st.sampled_from([0.3, 1.] if dim < 3 else [3., 12.])),
        fake=False, stencil=None, parallel=draw(st.sampled_from([1, 1, 3, 50])),
        recheck=True, recheck_count=0, simplex_check_cutoff=dim + 1,
        keep_history=draw(weighted((3, True), (1, False))),
    )


def run_exact(case):
    box = Box(case['limits'], case['periodic'])
    func = noisy_gap(case['gap'])
    gap = LoggedGap(func, limit=500000)
    result, _ = run_search(case, gap=gap)
    options = dict(options_of(case), exact_tol=True)
    expected_calls = Counter()
    complete = True
    num_steps = 0
    labels = Counter()
    for res in result.minimization_results:
        hist = np.asarray(res.simplex_history).tolist()
        fhist = np.asarray(res.fun_simplex_history).tolist()
        check_final(res, hist, fhist, box)
        idx = 0
        try:
            for step in reference(hist, func, options):
                if step['status'] is not None:
                    require(
                        res.num_iter == step['num_iter'],
                        'stopped after {} iterations instead of {}',
                        res.num_iter, step['num_iter']
                    )
                    require(
                        res.num_fev == step['num_fev'],
                        '{} evaluations instead of {}', res.num_fev,
                        step['num_fev']
                    )
                    require(
                        res.status in step['status'],
                        'status {} instead of {}', res.status, step['status']
                    )
                    labels['status{}'.format(res.status)] += 1
                    expected_calls.update(step['calls'])
                    break
                require(
                    idx < len(hist), 'stopped after {} iterations, but the '
                    'stop criteria are not fulfilled for {} {}', idx, hist[-1],
                    fhist[-1]
                )
                require(
                    fhist[idx] == step['values'] and
                    [tuple(v) for v in hist[idx]] == step['simplex'], 'simplex {} of the minimization is {} {}, expected {} '
                    '{}', idx, hist[idx], fhist[idx], step['simplex'],
                    step['values']
                )
                idx += 1
                num_steps += 1
        except Undecided:
            complete = False
            labels['undecided'] += 1
    if complete:
        calls = Counter(tuple(x + 0. for x in c) for c in gap.calls)
        expected = Counter(
            {tuple(x + 0. for x in c): n for c, n in expected_calls.items()}
        )
        require(
            calls == expected,
            'evaluations differ: unexpected {}, missing {}',
            list((calls - expected).items())[:3],
            list((expected - calls).items())[:3]
        )
        labels['complete'] += 1
    if not case['keep_history']:
        short, _ = run_search(
            dict(case, nm=dict(case['nm'], keep_history=False)),
            gap=LoggedGap(func, limit=500000)
        )

        def key(res):
            return (
                tuple(res.pos), res.value, res.status, res.success,
                res.num_fev, res.num_iter,
                np.asarray(res.simplex_history)[-1].tolist()
            )
        require(
            sorted(map(key, short.minimization_results)) ==
            sorted(map(key, result.minimization_results)),
            'results without history are different'
        )
        for res in short.minimization_results:
            require(
                len(res.simplex_history) == 1, 'history of length {} was kept',
                len(res.simplex_history)
            )
    return Report(
        num_steps >= 5, list(labels),
        dict(steps=num_steps, evaluations=len(gap.calls),
             minimizations=len(result.minimization_results))
    )


# -- step by step -----------------------------------------------------------

def less(a, b):
    """a < b, if this can be decided."""
    if math.isinf(a) or math.isinf(b):
        return a < b
    if a == b:
        raise Undecided
    if abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-13:
        raise Undecided
    return a < b


def one_step(simplex, values, func):
    """The next simplex (unsorted), its values, and the number of calls."""
    dim = len(simplex) - 1
    if len(set(values)) < len(values):
        raise Undecided
    arr = np.array(simplex)
    center = arr[:-1].mean(axis=0)
    worst = arr[-1]

    def ev(pos):
        return func(tuple(float(x) for x in pos))

    refl = 2 * center - worst
    f_refl = ev(refl)
    if less(f_refl, values[0]):
        exp = 3 * center - 2 * worst
        f_exp = ev(exp)
        new, kind = (
            (exp, 'expand') if less(f_exp, f_refl) else (refl, 'reflect')
        )
        num = 2
    elif less(f_refl, values[-2]):
        new, num, kind = refl, 1, 'reflect'
    elif less(f_refl, values[-1]):
        con = 1.5 * center - 0.5 * worst
        new, num, kind = con, 2, 'outside'
        if not less(ev(con), f_refl):
            new = None
    else:
        con = 0.5 * center + 0.5 * worst
        new, num, kind = con, 2, 'inside'
        if not less(ev(con), values[-1]):
            new = None
    if new is None:
        num += dim
        kind = 'shrink'
        res = [arr[0]] + [arr[0] + 0.5 * (v - arr[0]) for v in arr[1:]]
    else:
        res = list(arr[:-1]) + [new]
    return res, num, kind


def same_vertices(got, expected):
    got = np.array(got)
    expected = np.array(expected)
    tol = 1e-11 * max(1e-3, np.max(np.abs(expected)))
    left = list(range(len(got)))
    for vertex in expected:
        for i in left:
            if np.max(np.abs(got[i] - vertex)) <= tol:
                left.remove(i)
                break
        else:
            return False
    return True


def run_steps(case):
    box = Box(case['limits'], case['periodic'])
    result, gap = run_search(case)
    options = options_of(case)
    num_steps = 0
    total = 0
    labels = Counter()
    for res in result.minimization_results:
        hist = np.asarray(res.simplex_history).tolist()
        fhist = np.asarray(res.fun_simplex_history).tolist()
        check_final(res, hist, fhist, box)
        dim = box.dim
        maxfev = options.get('maxfev', 200 * dim)
        maxiter = options.get('maxiter', 200 * dim)
        num_fev = dim + 1
        known = True
        for idx, (simplex, values) in enumerate(zip(hist, fhist)):
            for vertex, val in zip(simplex, values):
                actual = gap.func(tuple(vertex))
                require(
                    abs(actual - val) <= 1e-12 * max(1, abs(actual)),
                    'value {} recorded for {}, but it is {}', val, vertex,
                    actual
                )
            last = idx == len(hist) - 1
            try:
                stops = stop_status(simplex, values, options)
            except Undecided:
                stops = None
            if known:
                if num_fev >= maxfev and stops is not None:
                    stops.add(1)
            elif last and res.num_fev >= maxfev and stops is not None:
                stops.add(1)
            if idx + 1 >= maxiter and stops is not None:
                stops.add(2)
            if last:
                if stops is not None:
                    require(
                        res.status in stops, 'final status is {}, but {} are '
                        'fulfilled', res.status, stops
                    )
                    labels['status{}'.format(res.status)] += 1
                require(
                    res.num_fev < maxfev + dim + 2 or res.num_fev == dim + 1,
                    '{} evaluations with a limit of {}', res.num_fev, maxfev
                )
                if known:
                    require(
                        res.num_fev == num_fev, '{} evaluations reported, '
                        'expected {}', res.num_fev, num_fev
                    )
                break
            if stops is not None:
                require(
                    not stops, 'minimization went on although the stop '
                    'criteria {} are fulfilled by {} {}', stops, simplex,
                    values
                )
            try:
                expected, num, kind = one_step(simplex, values, gap.func)
            except Undecided:
                labels['undecided'] += 1
                known = False
                continue
            num_fev += num
            labels[kind] += 1
            num_steps += 1
            require(
                same_vertices(hist[idx + 1], expected),
                'step {} from {} {} leads to {}, expected {} ({})', idx,
                simplex, values, hist[idx + 1],
                [list(v) for v in expected], kind
            )
        total += res.num_fev
    require(
        total == len(gap.calls), '{} evaluations reported, but there were {}',
        total, len(gap.calls)
    )
    return Report(
        num_steps >= 5, list(labels),
        dict(steps=num_steps, evaluations=len(gap.calls),
             minimizations=len(result.minimization_results))
    )


# -- limits -----------------------------------------------------------------

@st.composite
def limit_cases(draw):
    dim = draw(st.sampled_from([1, 2, 3, 4]))
    nm = draw(st.sampled_from(
        ['none', 'maxfev', 'maxiter', 'large_maxfev', 'large_maxiter']
    ))
    opts = {}
    if nm == 'maxfev':
        opts['maxfev'] = draw(st.integers(0, 300))
    elif nm == 'maxiter':
        opts['maxiter'] = draw(st.integers(0, 60 * dim))
    elif nm == 'large_maxfev':
        opts['maxfev'] = 5000
    elif nm == 'large_maxiter':
        opts['maxiter'] = 5000
    return dict(
        limits=[[0., 1.]] * dim, periodic=False, mesh=[1] * dim,
        gap=dict(
            kind='slope', direction=[
                draw(weighted((1, floats(0.2, 1)), (1, floats(-1, -0.2))))
                for _ in range(dim)
            ]
        ),
        nm=opts, threshold=1e-2, feature_size=0.1 if dim < 3 else 1., fake=False,
        stencil=None, parallel=50, recheck=True, recheck_count=0, simplex_check_cutoff=0,
    )


def run_limits(case):
    direction = case['gap']['direction']

    def func(pos):
        # unbounded below
        return -sum(d * x for d, x in zip(direction, pos))

    gap = LoggedGap(func, limit=100000)
    result, _ = run_search(case, gap=gap)
    dim = len(case['limits'])
    maxfev = case['nm'].get('maxfev', 200 * dim)
    maxiter = case['nm'].get('maxiter', 200 * dim)
    require(len(result.nodes) == 0, 'found a node without convergence')
    require(len(result.rejected_results) == 1, 'wrong number of results')
    res, = result.rejected_results
    require(res.num_fev == len(gap.calls), 'wrong number of evaluations')
    require(not res.success, 'successful without convergence')
    possible = set()
    if res.num_fev >= maxfev:
        possible.add(1)
    if res.num_iter >= maxiter:
        possible.add(2)
    require(
        res.status in possible, 'status {} after {} evaluations (limit {}) and '
        '{} iterations (limit {})', res.status, res.num_fev, maxfev,
        res.num_iter, maxiter
    )
    require(
        res.num_fev < maxfev + dim + 2 or res.num_fev == dim + 1,
        '{} evaluations with limit {}', res.num_fev, maxfev
    )
    require(
        res.num_iter <= maxiter or maxiter == 0,
        '{} iterations with limit {}', res.num_iter, maxiter
    )
    require(
        isinstance(res.message, str) and res.message, 'no message'
    )
    return Report(
        res.num_iter > 5, ['status{}'.format(res.status)],
        dict(evaluations=len(gap.calls))
    )


@st.composite
def long_cases(draw):
    """Minimizations which (mostly) end at the default or large limits."""
    case = draw(exact_cases())
    dim = len(case['limits'])
    case['mesh'] = [1] * dim
    case['gap'].update(
        amp=draw(st.sampled_from([1., 10.])), bits=draw(
            st.sampled_from([3, 20])), slope=draw(
            st.sampled_from([0.25, 2.**-10]))
    )
    case['nm'] = dict(
        xtol=draw(st.sampled_from([0., 2.**-30])), ftol=0., **draw(
            st.sampled_from([{}, dict(maxiter=900, maxfev=3000),
                             dict(maxfev=700), dict(maxiter=350)]))
    )
    return dict(case, keep_history=True)


SUBS = [
    Sub('long', long_cases(), run_exact, 96, 3000, shards=16),
    Sub('exact', exact_cases(), run_exact, 4800, 80000, shards=16),
    Sub(
        'steps', search_cases(fake=False, max_mesh=4), run_steps, 320, 12000,
        shards=16
    ),
    Sub('limits', limit_cases(), run_limits, 160, 4000),
]
