"""C07: parallel minimizations."""
import random
import shutil

from common import *
from checks import c05_starting as c05

ID = 'C07'
LEVEL = 'exploration'
TECHNIQUE = (
    'property-based testing over generated completion schedules of '
    'asynchronous evaluations'
)
NOTE = (
    'Searches run with an asynchronous gap function whose evaluations '
    'complete in generated orders (random, last first, starving the first); '
    'minimizations in progress are counted at each evaluation, and results '
    'compared to a sequential search. Schedules are sampled.'
)
RULE = (
    'independent: minimizations do not influence each other, all options '
    'otherwise. coupled: all options. supply: all options, whether anything '
    'waits in the saved queues while fewer minimizations than allowed are in '
    'progress. Non-trivial: more than one minimization at a time (supply: '
    'fewer minimizations than allowed in progress, and refined nodes).'
)
ASSUMPTIONS = [
    'The search has started all minimizations it is going to start when it '
    'did nothing for 25 cycles of the event loop and 2 s.'
]


@st.composite
def cases(draw, independent):
    if independent:
        case = draw(search_cases(
            independent=True, max_mesh=9, dims=(1, 2, 2, 3),
            parallel=draw(weighted((5, st.integers(2, 6)), (1, 1), (1, 50)))
        ))
    else:
        case = draw(search_cases(
            max_mesh=4, dims=(1, 1, 2, 2, 3), lines=False,
            parallel=draw(weighted((5, st.integers(2, 6)), (1, 1), (1, 50)))
        ))
    # not too many evaluations
    if 'maxfev' not in case['nm']:
        case['nm']['maxfev'] = draw(st.sampled_from([25, 60]))
    if independent and draw(weighted((3, False), (1, True))):
        # many starting simplices
        dim = len(case['limits'])
        case['mesh'] = [
            draw(st.integers(2, {1: 70, 2: 9, 3: 4}[dim])) for _ in range(dim)
        ]
        case['parallel'] = draw(weighted(
            (3, st.integers(7, 70)), (1, st.just(50))
        ))
        case['nm'] = dict(maxfev=draw(st.integers(1, 12)))
    case['schedule'] = draw(st.integers(0, 10**6))
    return case


def run_independent(case):
    # reference: one after another
    seq, seq_gap = run_search(case, num_minimize_parallel=1)
    dim = len(case['limits'])
    owner = {}
    length = []
    left = {}
    unique = True
    for res in seq.minimization_results:
        key = tuple(sorted(map(tuple, first_simplex(res).tolist())))
        left.setdefault(key, []).append(res)
    idx = 0
    while idx < len(seq_gap.calls):
        key = tuple(sorted(seq_gap.calls[idx:idx + dim + 1]))
        require(
            left.get(key), 'more than one minimization in progress when only '
            'one is allowed'
        )
        res = left[key].pop()
        for call in seq_gap.calls[idx:idx + res.num_fev]:
            if owner.setdefault(call, len(length)) != len(length):
                unique = False
        length.append(res.num_fev)
        idx += res.num_fev
    num_total = len(length)
    limit = case['parallel']
    started = [0] * num_total
    max_running = [0]

    def counts():
        pending = [0] * num_total
        for _, key, _ in gap.pending:
            pending[owner[key]] += 1
        running = finished = 0
        for i in range(num_total):
            done = started[i] - pending[i]
            if done >= length[i]:
                finished += 1
            elif started[i]:
                running += 1
        return running, finished

    def on_call(key):
        require(
            key in owner, 'evaluation at {} does not occur in the sequential '
            'search', key
        )
        started[owner[key]] += 1
        if unique:
            # minimizations with pending evaluations
            running = len(set(owner[k] for _, k, _ in gap.pending))
            max_running[0] = max(max_running[0], running)
            require(
                running <= limit, '{} minimizations in progress, {} are '
                'allowed', running, limit
            )

    def at_rest(final):
        if not unique:
            return True
        running, finished = counts()
        expected = min(limit, num_total - finished)
        if running == expected:
            return True
        if final or running > expected:
            raise Violation(
                '{} minimizations in progress ({} finished of {}), {} should '
                'be'.format(running, finished, num_total, expected)
            )
        return False

    gap = ControlledGap(
        make_gap(case['gap'], case['limits'], case['periodic']), on_call
    )
    result = run_controlled(
        case, gap, random.Random(case['schedule']), at_rest
    )
    require(
        container_key(result) == container_key(seq),
        'results differ from those of a sequential search'
    )
    # the number of minimizations does not matter for a synchronous function
    par, par_gap = run_search(case)
    require(
        container_key(par) == container_key(seq), 'results depend on the '
        'number of parallel minimizations'
    )
    require(
        sorted(par_gap.calls) == sorted(seq_gap.calls) == sorted(gap.calls),
        'evaluations depend on the number of parallel minimizations'
    )
    return Report(
        unique and max_running[0] > 1, ['unique' if unique else 'shared'],
        dict(evaluations=len(gap.calls), minimizations=num_total)
    )


def run_coupled(case):
    dim = len(case['limits'])
    num_mesh = int(np.prod(case['mesh']))
    limit = case['parallel']
    max_pending = [0]
    first = [True]

    def on_call(_):
        max_pending[0] = max(max_pending[0], len(gap.pending))
        require(
            len(gap.pending) <= limit * (dim + 1), '{} evaluations in '
            'progress for {} minimizations in {} dimensions',
            len(gap.pending), limit, dim
        )

    def at_rest(final):
        if not first[0]:
            return True
        expected = min(limit, num_mesh) * (dim + 1)
        if len(gap.pending) == expected:
            first[0] = False
            return True
        if final:
            raise Violation(
                '{} evaluations in progress at the start, expected {}'.format(
                    len(gap.pending), expected
                )
            )
        return False

    gap = ControlledGap(
        make_gap(case['gap'], case['limits'], case['periodic']), on_call
    )
    result = run_controlled(
        case, gap, random.Random(case['schedule']), at_rest
    )
    require(not gap.pending, 'search returned before evaluations finished')
    num_fev = sum(r.num_fev for r in result.minimization_results)
    require(
        num_fev == len(gap.calls), 'results account for {} evaluations, but '
        'there were {}', num_fev, len(gap.calls)
    )
    check_sound(case, result, gap)
    check_coverage(case, result)
    c05.check_started(case, result)
    return Report(
        max_pending[0] > dim + 1, ['fake' if case['fake'] else 'plain'],
        dict(evaluations=len(gap.calls))
    )


@st.composite
def supply_cases(draw):
    case = draw(search_cases(
        max_mesh=4, dims=(1, 1, 2, 2, 3),
        parallel=draw(weighted((5, st.integers(2, 6)), (1, 1), (1, 50)))
    ))
    if 'maxfev' not in case['nm']:
        case['nm']['maxfev'] = draw(st.sampled_from([25, 60]))
    case['schedule'] = draw(st.integers(0, 10**6))
    # The state is loaded very often, and loading takes time for each cell.
    sizes = [abs(b - a) for a, b in case['limits']]
    while np.prod([
        min(100, max(1, CUTOFF_FACTOR * x / case['feature_size']))
        for x in sizes
    ]) > 3000:
        case['feature_size'] *= 1.5
    return case


class Enough(Exception):
    pass


def run_supply(case):
    """Nothing waits in a queue while fewer minimizations are running."""
    folder = scratch_dir()
    path = os.path.join(folder, 'state.hdf5')
    limit = case['parallel']
    idle = [0, 0]

    def at_rest(final):
        pending = len(gap.pending)
        if pending >= limit or not os.path.exists(path):
            return True
        # every running minimization has at least one pending evaluation
        state = nf.io.load(path)
        positions = len(state.position_queue.objects)
        simplices = len(state.simplex_queue.objects)
        idle[0] += 1
        if not positions and simplices <= pending:
            return True
        idle[1] += 1
        if final:
            raise Violation(
                'at most {} minimizations in progress, {} are allowed, but {} '
                'positions and {} simplices are waiting'.format(
                    pending, limit, positions, simplices - pending
                )
            )
        return False

    def on_call(_):
        if len(gap.calls) > 800:
            raise Enough

    gap = ControlledGap(
        make_gap(case['gap'], case['limits'], case['periodic']), on_call
    )
    try:
        result = run_controlled(
            case, gap, random.Random(case['schedule']), at_rest,
            save_file=path, save_delay=0.
        )
    except Enough:
        return Report(idle[0] > 0, ['cut'], dict(evaluations=len(gap.calls)))
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    check_sound(case, result, gap)
    refined = len(list(result.refined_results))
    return Report(
        idle[0] > 0 and refined > 0, ['refined' if refined else 'plain'],
        dict(evaluations=len(gap.calls))
    )


SUBS = [
    Sub('independent', cases(True), run_independent, 400, 8000, shards=16),
    Sub('supply', supply_cases(), run_supply, 96, 4000, shards=16),
    Sub('coupled', cases(False), run_coupled, 320, 8000, shards=16),
]
