"""C08: resuming a search from a saved state."""
import random
import shutil

from common import *
from checks import c05_starting as c05


ID = 'C08'
LEVEL = 'exploration'
TECHNIQUE = (
    'stateful property-based testing: snapshots of the save file at generated '
    'points of generated schedules, resumed and compared'
)
NOTE = (
    'The save file is copied at generated evaluations of searches (sequential '
    'and with asynchronous evaluations completing in generated orders), '
    'checked for conservation of the work, and resumed (several times in a '
    'chain, from the file or as initial state). Crash points are sampled.'
)
RULE = (
    'Random searches with continuous saving; searches with up to 150 starting '
    'points (sub "large") stopped after a random part of them. Non-trivial: a resumed state had '
    'both finished and remaining minimizations.'
)
ASSUMPTIONS = [
    'The resumed search has the same options unless stated otherwise.'
]


@st.composite
def cases(draw, independent):
    if independent:
        case = draw(search_cases(
            independent=True, max_mesh=8, dims=(1, 2, 2, 3),
        ))
    else:
        case = draw(search_cases(stencil='yes', max_mesh=4, dims=(1, 2, 2, 3),
                                 lines=False))
    if 'maxfev' not in case['nm']:
        case['nm']['maxfev'] = draw(st.sampled_from([25, 60]))
    case['schedule'] = draw(st.integers(0, 10**6))
    case['mode'] = draw(st.sampled_from(['sync', 'async', 'async']))
    # fractions of the evaluations at which the state is taken
    if np.prod(case['mesh']) < 2:
        case['mesh'][0] = 3
    case['points'] = draw(st.lists(floats(0.02, 1), min_size=1, max_size=3))
    case['chain'] = draw(st.lists(floats(0.02, 1), max_size=2))
    case['how'] = draw(st.sampled_from(['load', 'initial_state']))
    case['parallel2'] = draw(st.sampled_from([None, 1, 4]))
    case['forced'] = draw(st.sampled_from([None, 0, 1, 2]))
    return case


def approx_key(res):
    """Everything except for the position, which is compared separately."""
    return result_key(res)[1:]


def match_results(box, got, expected, what):
    """Equal up to rounding errors of positions moved into the box again."""
    got = sorted(got, key=lambda r: (approx_key(r), tuple(map(float, r.pos))))
    expected = sorted(
        expected, key=lambda r: (approx_key(r), tuple(map(float, r.pos)))
    )
    require(
        len(got) == len(expected), '{}: {} results instead of {}', what,
        len(got), len(expected)
    )
    scale = max(box.scale(), *(abs(x) for x in box.lo + box.hi))
    for one, two in zip(got, expected):
        require(
            approx_key(one) == approx_key(two),
            '{}: results differ: {} and {}', what, one, two
        )
        require(
            box.dist(one.pos, two.pos) <= 1e-9 * max(
                [scale] + [abs(float(x)) for x in two.pos]
            ),
            '{}: positions differ: {} and {}', what, one.pos, two.pos
        )


def check_state(case, state):
    """Conservation of work in a saved state."""
    box = Box(case['limits'], case['periodic'])
    cutoff = case['feature_size'] / CUTOFF_FACTOR
    queued = [np.array(s) for s in state.simplex_queue.objects]
    c05.check_started(case, state.result, queued=queued)
    if case['stencil'] is None:
        return len(queued)
    tol = 1e-9 * max(
        box.scale(), max(abs(x) for lim in case['limits'] for x in lim)
    )
    known = [np.array(p) for p in state.position_queue.objects] + [
        np.array(p) for p in state.result.refined_results
    ]
    for node in state.result.nodes:
        pos = [float(x) for x in node.pos]
        if not case['periodic'] and any(
            not lo <= x <= hi for x, lo, hi in zip(pos, box.lo, box.hi)
        ):
            continue
        require(
            known and np.min(box.dist_many(pos, known)) < cutoff + tol,
            'saved node {} is neither close to a refined position nor queued '
            'for refinement', pos
        )
    return len(queued)


class Snapshots:
    """Copies the save file at some of the evaluations."""

    def __init__(self, path, points):
        self.path = path
        self.points = sorted(points)
        self.count = 0
        self.copies = []

    def __call__(self, _):
        self.count += 1
        while self.points and self.count >= self.points[0]:
            self.points.pop(0)
            self.take()

    def take(self):
        if os.path.exists(self.path):
            copy = '{}.{}'.format(self.path, len(self.copies))
            shutil.copyfile(self.path, copy)
            self.copies.append(copy)


class HookedGap(LoggedGap):
    """Logged synchronous gap function with a hook."""

    def __init__(self, func, hook):
        super().__init__(func, limit=1000000)
        self.hook = hook

    def __call__(self, pos):
        val = super().__call__(pos)
        self.hook(pos)
        return val


class AsyncHookedGap(LoggedGap):
    """Asynchronous gap function which gives others (saving) a chance to run."""

    def __init__(self, func, hook):
        super().__init__(func, limit=1000000)
        self.hook = hook

    async def __call__(self, pos):
        val = super().__call__(pos)
        self.hook(pos)
        await asyncio.sleep(0)
        return val


def run_saving(case, func, path, hook, **override):
    """Run the search, saving all the time."""
    override = dict(save_file=path, save_delay=0., **override)
    if case['mode'] == 'sync':
        gap = AsyncHookedGap(func, hook)
        return run(gap, **search_kwargs(case, **override)), gap
    gap = ControlledGap(func, hook)
    return run_controlled(
        case, gap, random.Random(case['schedule']), **override
    ), gap


def run_case(case, independent):
    box = Box(case['limits'], case['periodic'])
    func = make_gap(case['gap'], case['limits'], case['periodic'])
    folder = scratch_dir()
    path = os.path.join(folder, 'state.hdf5')
    plain, plain_gap = run_search(case)
    total = len(plain_gap.calls)
    hook = Snapshots(path, [int(f * total) + 1 for f in case['points']])
    result, gap = run_saving(case, func, path, hook)
    if independent:
        match_results(
            box, result.minimization_results, plain.minimization_results,
            'saving'
        )
    hook.take()
    last = hook.copies[-1]
    if not independent and case.get('forced') is not None:
        run_forced(
            case, func, path + '.forced',
            hook.copies[case['forced'] % len(hook.copies)]
        )
    interesting = False
    labels = []
    num_states = 0
    for copy in hook.copies:
        state = nf.io.load(copy)
        num_states += 1
        left = check_state(case, state)
        if copy == last:
            require(
                left == 0 and not state.position_queue.objects,
                'there is work left in the state of a finished search'
            )
            match_results(
                box, state.result.minimization_results,
                result.minimization_results, 'final state'
            )
        done = len(state.result.minimization_results)
        if left and done:
            interesting = True
        if left and state.position_queue.objects:
            labels.append('positions-queued')
        # resume, possibly with further interruptions
        chain = list(case['chain']) if copy != last else []
        while True:
            saved = nf.io.load(copy).result
            before = list(saved.minimization_results)
            refined = list(saved.refined_results)
            hook2 = Snapshots(
                copy, [int(chain.pop(0) * total) + 1] if chain else []
            )
            override = {}
            if case['parallel2'] is not None:
                override['num_minimize_parallel'] = case['parallel2']
            if case['how'] == 'load':
                override['load'] = True
            else:
                override['initial_state'] = nf.io.load(copy)
            final, gap2 = run_saving(case, func, copy, hook2, **override)
            check_resumed(case, box, before, final, gap2, plain, independent)
            check_refined_kept(box, refined, final)
            if left == 0 and not state.position_queue.objects:
                require(
                    not gap2.calls, 'resuming a finished search evaluated {} '
                    'positions', len(gap2.calls)
                )
            if not hook2.copies:
                break
            copy = hook2.copies[-1]
            state = nf.io.load(copy)
            left = check_state(case, state)
            num_states += 1
            labels.append('chain')
    shutil.rmtree(folder)
    return Report(
        interesting, sorted(set(labels)) + [case['mode'], case['how']],
        dict(states=num_states)
    )


def check_refined_kept(box, before, final):
    """The refined positions of the state are also those of the result."""
    tol = 1e-9 * max(box.scale(), *(abs(x) for x in box.lo + box.hi))
    left = [tuple(map(float, p)) for p in final.refined_results]
    for pos in before:
        dists = box.dist_many(pos, np.array(left).reshape(-1, box.dim))
        require(
            len(dists) and np.min(dists) <= tol,
            'refined position {} of the state is missing after resuming',
            list(pos)
        )
        left.pop(int(np.argmin(dists)))


def run_forced(case, func, path, copy):
    """Resume with the initial mesh again."""
    box = Box(case['limits'], case['periodic'])
    state = nf.io.load(copy)
    before = list(state.result.minimization_results)
    refined = list(state.result.refined_results)
    final, gap = run_saving(
        case, func, path, lambda _: None, initial_state=state,
        force_initial_mesh=True
    )
    check_kept(case, box, before, final, gap)
    check_refined_kept(box, refined, final)
    check_sound(case, final)
    check_coverage(case, final)


def check_kept(case, box, before, final, gap):
    results = list(final.minimization_results)
    new = sum(r.num_fev for r in results) - sum(r.num_fev for r in before)
    require(
        new == len(gap.calls), 'resumed search did {} evaluations, but the '
        'new results account for {}', len(gap.calls), new
    )
    # all saved results are kept
    left = {}
    for res in results:
        left.setdefault(approx_key(res), []).append(res)
    for res in before:
        found = left.get(approx_key(res), [])
        found.sort(key=lambda r: -box.dist(r.pos, res.pos))
        require(
            found and box.dist(found[-1].pos, res.pos) <= 1e-9 * max(
                [box.scale()] + [abs(float(x)) for x in res.pos]
            ),
            'saved result {} is missing after resuming', res
        )
        found.pop()


def check_resumed(case, box, before, final, gap, plain, independent):
    check_kept(case, box, before, final, gap)
    results = list(final.minimization_results)
    if independent:
        match_results(
            box, results, plain.minimization_results, 'resumed search'
        )
    check_sound(case, final)
    check_coverage(case, final)
    c05.check_started(case, final)


# -- options ----------------------------------------------------------------

@st.composite
def option_cases(draw):
    case = draw(cases(True))
    case['points'] = [draw(floats(0.02, 1))]
    case['new_threshold'] = draw(st.sampled_from([1e-6, 1e-3, 0.05, 0.3, 10.]))
    case['new_size'] = case['feature_size'] * draw(
        st.sampled_from([1., 0.5, 2.])
    )
    case['new_mesh'] = draw(st.sampled_from(['same', 'same', 'other']))
    return case


def run_options(case):
    box = Box(case['limits'], case['periodic'])
    func = make_gap(case['gap'], case['limits'], case['periodic'])
    folder = scratch_dir()
    path = os.path.join(folder, 'state.hdf5')
    plain, plain_gap = run_search(case)
    hook = Snapshots(
        path, [int(case['points'][0] * len(plain_gap.calls)) + 1]
    )
    result, _ = run_saving(case, func, path, hook)
    hook.take()
    labels = []
    interesting = False

    # -- new thresholds
    thr_case = dict(
        case, threshold=case['new_threshold'], feature_size=case['new_size'],
        nm=dict(case['nm'])
    )
    for copy in hook.copies:
        state = nf.io.load(copy)
        before = list(state.result.minimization_results)
        final, gap = run_saving(
            thr_case, func, copy + '.thr', lambda _: None, initial_state=state
        )
        check_sound(thr_case, final)
        require(
            sum(r.num_fev for r in final.minimization_results) -
            sum(r.num_fev for r in before) == len(gap.calls),
            'evaluations do not agree with results'
        )
        require(
            len(final.minimization_results) ==
            len(before) + len(state.simplex_queue.objects) ==
            len(result.minimization_results),
            'wrong number of results after changing the thresholds'
        )
        if len(final.nodes) != len(result.nodes):
            labels.append('rejudged')

    # -- new limits, of which the saved ones are a part
    lim_case = dict(case, limits=[
        [lo, lo + 2 * (hi - lo)] for lo, hi in map(sorted, case['limits'])
    ])
    for copy in hook.copies[:1]:
        state = nf.io.load(copy)
        before = list(state.result.minimization_results)
        final, gap = run_saving(
            lim_case, func, copy + '.lim', lambda _: None, initial_state=state
        )
        check_sound(lim_case, final)
        require(
            len(final.minimization_results) ==
            len(before) + len(state.simplex_queue.objects),
            'wrong number of results after changing the limits'
        )
        check_sound(lim_case, nf.io.load(copy + '.lim').result)

    # -- initial mesh again
    mesh = list(case['mesh'])
    if case['new_mesh'] == 'other':
        mesh[0] += 1
    mesh_case = dict(case, mesh=mesh)
    for copy in hook.copies:
        for force in [False, True]:
            state = nf.io.load(copy)
            queue = state.simplex_queue.objects
            before = list(state.result.minimization_results)
            final, gap = run_saving(
                mesh_case, func, copy + '.mesh', lambda _: None,
                initial_state=state, force_initial_mesh=force
            )
            expected = [c05.canonical(s) for s in queue]
            tol = 1e-9 * max(
                box.scale(), *(abs(x) for x in box.lo + box.hi)
            )
            if force:
                for simplex in reference_mesh(
                    case['limits'], mesh, case['periodic']
                ):
                    simplex = c05.canonical(simplex)
                    if not c05.close(simplex, np.array(expected), tol):
                        expected.append(simplex)
            new = [first_simplex(r) for r in final.minimization_results]
            for res in before:
                idx = c05.close(first_simplex(res), np.array(new), tol)
                require(idx, 'saved result is missing')
                new.pop(idx[0])
            require(
                len(new) == len(expected),
                '{} minimizations were started with {} simplices in the queue '
                'and force_initial_mesh={}, expected {}', len(new), len(queue),
                force, len(expected)
            )
            for simplex in expected:
                idx = c05.close(simplex, np.array(new), tol)
                require(
                    idx, 'simplex {} was not run (force_initial_mesh={})',
                    simplex.tolist(), force
                )
                new.pop(idx[0])
            if before and queue:
                interesting = True

    # -- missing file
    missing = os.path.join(folder, 'missing.hdf5')
    gap = LoggedGap(func)
    try:
        run(gap, **search_kwargs(
            case, save_file=missing, load=True, load_quiet=False
        ))
    except OSError:
        require(not gap.calls, 'evaluations without the file to load')
    else:
        raise Violation('no error for a missing file')
    require(not os.path.exists(missing), 'file created')
    fresh, _ = run_search(
        case, save_file=missing, load=True, load_quiet=True
    )
    match_results(
        box, fresh.minimization_results, plain.minimization_results,
        'loading a missing file'
    )
    # -- file which cannot be read
    with open(hook.copies[0], 'rb') as f:
        content = f.read()
    for num, data in enumerate([b'', b'not a save file', content[:-1]]):
        broken = os.path.join(folder, 'broken{}.hdf5'.format(num))
        with open(broken, 'wb') as f:
            f.write(data)
        gap = LoggedGap(func)
        try:
            run(gap, **search_kwargs(
                case, save_file=broken, load=True, load_quiet=False
            ))
        except OSError:
            require(not gap.calls, 'evaluations without the file to load')
        else:
            raise Violation('no error for an unreadable file')
        with open(broken, 'rb') as f:
            require(f.read() == data, 'unreadable file was changed')
        fresh, _ = run_search(
            case, save_file=broken, load=True, load_quiet=True
        )
        match_results(
            box, fresh.minimization_results, plain.minimization_results,
            'loading an unreadable file'
        )
    # -- both
    for copy in [hook.copies[0], os.path.join(folder, 'missing2.hdf5')]:
        gap = LoggedGap(func)
        try:
            run(gap, **search_kwargs(
                case, save_file=copy, load=True,
                initial_state=nf.io.load(hook.copies[0])
            ))
        except ValueError:
            require(not gap.calls, 'evaluations in spite of an error')
        else:
            raise Violation('load and initial_state were both accepted')
    shutil.rmtree(folder)
    return Report(interesting, sorted(set(labels)))


# -- large states -------------------------------------------------------------

@st.composite
def large_cases(draw):
    independent = draw(st.booleans())
    if independent:
        case = draw(search_cases(
            independent=True, max_mesh=8, dims=(1, 2, 2, 3), nm=False,
        ))
    else:
        case = draw(search_cases(
            stencil='yes', max_mesh=4, dims=(1, 2, 2), lines=False, nm=False
        ))
        case['feature_size'] = max(case['feature_size'], 0.3 * min(
            abs(b - a) for a, b in case['limits']
        ))
    dim = len(case['limits'])
    case['mesh'] = draw(st.sampled_from({
        1: [[20], [60], [150], [400]],
        2: [[5, 4], [8, 9], [3, 40], [15, 18]],
        3: [[3, 3, 3], [5, 4, 4]]
    }[dim]))
    case['nm'] = dict(maxfev=draw(st.sampled_from([5, 15, 60])))
    return dict(
        case, independent=independent, finished=draw(floats(0, 1)),
        order=draw(st.sampled_from(['started', 'random'])),
        how=draw(st.sampled_from(['load', 'initial_state', 'copy'])),
        seed=draw(st.integers(0, 2**32)), parallel2=draw(
            st.sampled_from([None, 1, 30]))
    )


def run_large(case):
    """
    A search with many starting points, stopped after a part of them.
    """
    box = Box(case['limits'], case['periodic'])
    rng = random.Random(case['seed'])
    independent = case['independent']
    # (refinement is up to the resumed search; nothing is skipped here, as the
    # results because of which a simplex is skipped may not be in the state)
    plain, _ = run_search(case if independent else dict(
        case, stencil=None, simplex_check_cutoff=len(case['limits']) + 1
    ))
    results = list(plain.minimization_results)
    if case['order'] == 'random':
        rng.shuffle(results)
    num = round(case['finished'] * len(results))
    cont = SearchResultContainer(
        coordinate_system=plain.coordinate_system,
        minimization_results=results[:num],
        gap_threshold=case['threshold'],
        dist_cutoff=case['feature_size'] / CUTOFF_FACTOR
    )
    state = ControllerState(
        result=cont, simplex_queue=SimplexQueue(
            objects=[first_simplex(r) for r in results[num:]]
        ), position_queue=PositionQueue(
            objects=[] if independent else [n.pos for n in cont.nodes]
        )
    )
    before = list(cont.minimization_results)
    folder = scratch_dir()
    path = os.path.join(folder, 'state.hdf5')
    override = {}
    if case['how'] == 'initial_state':
        override['initial_state'] = state
    else:
        nf.io.save(state, path)
        loaded = nf.io.load(path)
        require(
            len(loaded.simplex_queue.objects) == len(results) - num,
            '{} of {} simplices in the saved state',
            len(loaded.simplex_queue.objects), len(results) - num
        )
        match_results(
            box, loaded.result.minimization_results, before, 'saved state'
        )
        if case['how'] == 'load':
            override.update(save_file=path, load=True)
        else:
            override['initial_state'] = loaded
    if case['parallel2'] is not None:
        override['num_minimize_parallel'] = case['parallel2']
    final, gap = run_search(case, **override)
    check_resumed(case, box, before, final, gap, plain, independent)
    if case['how'] == 'load':
        match_results(
            box, nf.io.load(path).result.minimization_results,
            final.minimization_results, 'final state'
        )
    shutil.rmtree(folder)
    return Report(0 < num < len(results), [
        case['how'], 'independent' if independent else 'coupled'
    ])


# -- refinement switched off and on again -------------------------------------

def run_switch(case):
    """
    Pending positions stay in the saved state if the refinement is switched
    off, and are refined by a later search.
    """
    box = Box(case['limits'], case['periodic'])
    cutoff = case['feature_size'] / CUTOFF_FACTOR
    func = make_gap(case['gap'], case['limits'], case['periodic'])
    folder = scratch_dir()
    path = os.path.join(folder, 'state.hdf5')
    _, plain_gap = run_search(case)
    total = len(plain_gap.calls)
    hook = Snapshots(path, [int(f * total) + 1 for f in case['points']])
    run_saving(case, func, path, hook)
    off = dict(case, stencil=None)
    rng = random.Random(case['schedule'])
    tol = 1e-9 * max(
        box.scale(), max(abs(x) for lim in case['limits'] for x in lim)
    )
    interesting = False
    for copy in hook.copies:
        state = nf.io.load(copy)
        before = list(state.result.minimization_results)
        # (a longer queue, as for larger searches)
        nodes = [n.pos for n in state.result.nodes]
        state.position_queue.add_objects(
            rng.sample(nodes, min(len(nodes), rng.randint(0, 4)))
        )
        pending = [tuple(p) for p in state.position_queue.objects]
        queue = [c05.canonical(s) for s in state.simplex_queue.objects]
        other = copy + '.off'
        final, gap = run_saving(
            off, func, other, lambda _: None, initial_state=state
        )
        check_sound(off, final)
        new = [first_simplex(r) for r in final.minimization_results]
        for res in before:
            idx = c05.close(first_simplex(res), np.array(new), tol)
            require(idx, 'saved result is missing')
            new.pop(idx[0])
        for simplex in new:
            idx = c05.close(simplex, np.array(queue), tol)
            require(
                idx, 'simplex {} was minimized without refinement, but not '
                'queued', np.asarray(simplex).tolist()
            )
            queue.pop(idx[0])
        require(
            case['simplex_check_cutoff'] <= box.dim or not queue,
            '{} queued simplices were not minimized', len(queue)
        )
        if os.path.exists(other):
            saved = nf.io.load(other)
        else:
            require(not gap.calls, 'state was not saved')
            saved = state
        require(
            not saved.simplex_queue.objects, 'simplices left in the queue'
        )
        left = [tuple(p) for p in saved.position_queue.objects]
        require(
            sorted(left) == sorted(pending),
            'pending positions {} are saved as {} by a search without '
            'refinement', pending, left
        )
        # and on again
        again, gap = run_saving(
            case, func, copy + '.on', lambda _: None, initial_state=saved
        )
        check_sound(case, again)
        state = nf.io.load(copy + '.on') if os.path.exists(
            copy + '.on') else saved
        require(
            not state.position_queue.objects and
            not state.simplex_queue.objects, 'work left in the final state'
        )
        known = [np.array(p) for p in state.result.refined_results]
        for pos in pending:
            require(
                known and np.min(box.dist_many(pos, known)) < cutoff + tol,
                'pending position {} was not refined', pos
            )
        if pending:
            interesting = True
    shutil.rmtree(folder)
    return Report(interesting, [case['mode']])


SUBS = [
    Sub('switch', cases(False), run_switch, 96, 2000, shards=16),
    Sub('large', large_cases(), run_large, 64, 2000, shards=16),
    Sub('independent', cases(True), lambda c: run_case(c, True), 120, 4000,
        shards=16),
    Sub('coupled', cases(False), lambda c: run_case(c, False), 64, 3000,
        shards=16),
    Sub('options', option_cases(), run_options, 48, 2000, shards=16),
]
