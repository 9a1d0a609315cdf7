"""C17: errors in the gap function."""
import queue
import random
import shutil
import threading

from common import *
from checks import c05_starting as c05
from checks.c08_resume import check_state, match_results

ID = 'C17'
LEVEL = 'exploration'
TECHNIQUE = 'property-based fault injection at generated evaluations'
NOTE = (
    'An exception is raised at a generated evaluation of generated searches, '
    'for synchronous and asynchronous gap functions and all ways of calling '
    'the search; the exception, the evaluations after it, and the resumed '
    'search are checked.'
)
RULE = (
    'cancelled: the task of the search is cancelled at a generated evaluation '
    'or time. Non-trivial: the exception was raised while other minimizations were in '
    'progress or already finished.'
)
ASSUMPTIONS = [
    'StopIteration is left out: Python itself converts it in coroutines. '
    'CancelledError and GeneratorExit need not be the same object.',
]


class CustomError(Exception):
    """Exception with an unusual signature."""

    def __init__(self, one, *, two):
        super().__init__(one)
        self.two = two


class CustomBase(BaseException):
    pass


def make_error(kind):
    return {
        'custom': lambda: CustomError(1, two=2),
        'ValueError': lambda: ValueError('gap'),
        'IndexError': lambda: IndexError('gap'),
        'KeyError': lambda: KeyError('gap'),
        'TypeError': lambda: TypeError('gap'),
        'RuntimeError': lambda: RuntimeError('gap'),
        'OSError': lambda: OSError(2, 'gap'),
        'Assertion': lambda: AssertionError(),
        'ZeroDivision': lambda: ZeroDivisionError(),
        'Timeout': lambda: asyncio.TimeoutError(),
        'MemoryError': lambda: MemoryError(),
        'Overflow': lambda: OverflowError('gap'),
        'FloatingPoint': lambda: FloatingPointError('gap'),
        'LinAlg': lambda: np.linalg.LinAlgError('gap'),
        'Attribute': lambda: AttributeError('gap'),
        'NotImplemented': lambda: NotImplementedError(),
        'Recursion': lambda: RecursionError('gap'),
        'StopAsync': lambda: StopAsyncIteration(),
        'EOF': lambda: EOFError(),
        'Connection': lambda: ConnectionResetError(104, 'gap'),
        'Empty': lambda: queue.Empty(),
        'InvalidState': lambda: asyncio.InvalidStateError('gap'),
        'Unicode': lambda: UnicodeError('gap'),
        'Warning': lambda: RuntimeWarning('gap'),
        'SystemExit': lambda: SystemExit(3),
        'KeyboardInterrupt': lambda: KeyboardInterrupt(),
        'Cancelled': lambda: asyncio.CancelledError(),
        'base': lambda: CustomBase('gap'),
        'GeneratorExit': lambda: GeneratorExit(),
    }[kind]()


PLAIN = [
    'custom', 'ValueError', 'IndexError', 'KeyError', 'TypeError',
    'RuntimeError', 'OSError', 'Assertion', 'ZeroDivision', 'Timeout',
    'MemoryError', 'Overflow', 'FloatingPoint', 'LinAlg', 'Attribute',
    'NotImplemented', 'Recursion', 'StopAsync', 'EOF', 'Connection', 'Empty',
    'InvalidState', 'Unicode', 'Warning'
]
BASE = ['SystemExit', 'KeyboardInterrupt', 'Cancelled', 'base',
        'GeneratorExit']
MODES = ['main', 'thread', 'loop', 'async', 'closed']


@st.composite
def cases(draw):
    case = draw(search_cases(
        max_mesh=6, dims=(1, 2, 2, 3), independent=draw(st.booleans()),
        lines=False
    ))
    case['nm'] = {'maxfev': draw(st.sampled_from([25, 60]))}
    if draw(weighted((4, False), (1, True))):
        # many minimizations in progress
        dim = len(case['limits'])
        case['mesh'] = draw(st.sampled_from({
            1: [[40], [90]], 2: [[5, 6], [3, 20]], 3: [[3, 3, 3]]
        }[dim]))
        case['parallel'] = draw(st.sampled_from([30, 50, 100]))
    case['call'] = draw(st.sampled_from(MODES))
    case['function'] = draw(st.sampled_from(['sync', 'async', 'slow']))
    case['error'] = draw(
        st.sampled_from(PLAIN) if case['call'] == 'async' else
        st.one_of(st.sampled_from(PLAIN), st.sampled_from(BASE))
    )
    case['at'] = draw(st.one_of(
        st.integers(1, 10), st.integers(1, 300), st.integers(1, 60)
    ))
    case['again'] = draw(weighted((2, False), (1, True)))
    case['save'] = draw(weighted((1, None), (2, 0.), (1, 5.)))
    case['schedule'] = draw(st.integers(0, 10**6))
    return case


class FailingGap:
    def __init__(self, func, case, error):
        self.func = func
        self.at = case['at']
        self.again = case['again']
        self.error = error
        self.calls = []
        self.raised = 0
        self.running = 0
        self.others = 0
        self.kind = case['function']
        self.rng = random.Random(case['schedule'])

    def evaluate(self, pos):
        key = tuple(float(x) for x in pos)
        self.calls.append(key)
        if len(self.calls) > 200000:
            raise Violation('too many evaluations')
        if len(self.calls) == self.at or (
            self.again and len(self.calls) > self.at
        ):
            if not self.raised:
                self.others = self.running
            self.raised += 1
            raise self.error
        return self.func(key)

    def sync(self, pos):
        return self.evaluate(pos)

    async def async_(self, pos):
        self.running += 1
        try:
            if self.rng.random() < 0.5:
                await asyncio.sleep(0)
                return self.evaluate(pos)
            res = self.evaluate(pos)
            await asyncio.sleep(0)
            return res
        finally:
            self.running -= 1

    async def slow(self, pos):
        self.running += 1
        try:
            for _ in range(self.rng.choice([0, 1, 3, 12])):
                await asyncio.sleep(0)
            if self.rng.random() < 0.02:
                await asyncio.sleep(1e-3)
            return self.evaluate(pos)
        finally:
            self.running -= 1

    @property
    def function(self):
        return dict(sync=self.sync, async_=self.async_, slow=self.slow)[
            'async_' if self.kind == 'async' else self.kind
        ]


async def linger():
    for _ in range(30):
        await asyncio.sleep(0)
    await asyncio.sleep(2e-3)
    for _ in range(5):
        await asyncio.sleep(0)


def call_search(mode, function, kwargs, count=lambda: None):
    """
    Call the search in different ways.

    Returns ('ok', result) or ('error', exception), and the number of
    evaluations when the search had finished.
    """
    def plain():
        try:
            res = 'ok', run(function, **kwargs)
        except Hang:
            raise
        except BaseException as exc:
            res = 'error', exc
        return res, count()

    if mode in ('main', 'closed'):
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        if mode == 'closed':
            # no usable event loop
            loop.close()
            asyncio.set_event_loop(None)
            res = plain()
            return res
        try:
            res = plain()
            require(not loop.is_closed(), 'the loop of the caller is closed')
            # the loop is used again
            loop.run_until_complete(linger())
        finally:
            loop.close()
            asyncio.set_event_loop(None)
        return res
    if mode == 'thread':
        out = []
        thread = threading.Thread(
            target=lambda: out.append(plain()), daemon=True
        )
        thread.start()
        thread.join()
        require(out, 'the search ended without returning or raising')
        return out[0]

    async def inner():
        if mode == 'loop':
            res = plain()
        else:
            try:
                res = 'ok', await run_async(function, **kwargs)
            except Hang:
                raise
            except BaseException as exc:
                res = 'error', exc
            res = res, count()
        await linger()
        return res

    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(inner())
    finally:
        loop.close()


def run_case(case):
    box = Box(case['limits'], case['periodic'])
    func = make_gap(case['gap'], case['limits'], case['periodic'])
    error = make_error(case['error'])
    gap = FailingGap(func, case, error)
    folder = scratch_dir()
    path = os.path.join(folder, 'state.hdf5')
    override = {}
    if case['save'] is not None:
        override = dict(save_file=path, save_delay=case['save'])
    independent = case['stencil'] is None and not case['fake'] and (
        case['simplex_check_cutoff'] > box.dim
    )
    old_hook = threading.excepthook
    threading.excepthook = lambda *args: None
    try:
        (kind, value), num = call_search(
            case['call'], gap.function, search_kwargs(case, **override),
            lambda: len(gap.calls)
        )
    finally:
        threading.excepthook = old_hook
    what = '{} search called from {}: {} raised in evaluation {}'.format(
        case['function'], case['call'], case['error'], case['at']
    )
    if not gap.raised:
        require(kind == 'ok', '{}: not raised, but got {!r}', what, value)
        check_sound(case, value)
        shutil.rmtree(folder)
        return Report(False, ['not reached'])
    require(
        kind == 'error', '{}: the search returned {!r}', what, value
    )
    if case['error'] in ('Cancelled', 'GeneratorExit'):
        require(
            isinstance(value, type(error)), '{}: the caller got {!r}', what,
            value
        )
    else:
        require(
            value is error, '{}: the caller got {!r} instead of this exception',
            what, value
        )
    require(
        len(gap.calls) == num, '{}: {} evaluations after the search had ended',
        what, len(gap.calls) - num
    )
    if case['call'] in ('main', 'closed', 'loop'):
        # the next search is not affected
        clean, _ = call_search(
            case['call'], lambda x: abs(float(x[0]) - 0.3),
            dict(limits=[(0, 1)], initial_mesh_size=2, feature_size=0.5)
        )
        require(
            clean[0] == 'ok', '{}: the next search raised {!r}', what, clean[1]
        )
        require(
            len(gap.calls) == num,
            '{}: {} evaluations during the next search', what,
            len(gap.calls) - num
        )
    labels = [case['call'], case['function'], case['error']]
    finished = 0
    if case['save'] is not None:
        finished = check_saved(case, func, folder, override, what)
        if independent:
            labels.append('resumed')
    shutil.rmtree(folder)
    return Report(finished > 0 or gap.others > 1, labels)


def check_saved(case, func, folder, override, what):
    """The state saved by an aborted search, and the search resumed from it."""
    box = Box(case['limits'], case['periodic'])
    require(
        os.listdir(folder) == ['state.hdf5'],
        '{}: the folder of the save file has {}', what, os.listdir(folder)
    )
    state = nf.io.load(override['save_file'])
    finished = len(state.result.minimization_results)
    check_state(case, state)
    good = LoggedGap(func, limit=1000000)
    final = run(good, **search_kwargs(case, load=True, **override))
    check_sound(case, final)
    check_coverage(case, final)
    c05.check_started(case, final)
    require(
        sum(r.num_fev for r in final.minimization_results) ==
        len(good.calls) +
        sum(r.num_fev for r in state.result.minimization_results),
        '{}: results and evaluations do not agree after resuming', what
    )
    if case['stencil'] is None and not case['fake'] and (
        case['simplex_check_cutoff'] > box.dim
    ):
        plain, _ = run_search(case)
        match_results(
            box, final.minimization_results, plain.minimization_results,
            'resumed after an error'
        )
    return finished


# -- cancellation -----------------------------------------------------------

@st.composite
def cancel_cases(draw):
    case = draw(cases())
    case['function'] = draw(st.sampled_from(['async', 'slow', 'slow']))
    case['how'] = draw(st.sampled_from(['inside', 'outside', 'wait_for']))
    case['at'] = draw(st.integers(1, 80))
    case['again'] = False
    return case


def run_cancelled(case):
    """The task of the search is cancelled."""
    box = Box(case['limits'], case['periodic'])
    func = make_gap(case['gap'], case['limits'], case['periodic'])
    case = dict(case, at=-1, cancel_at=case['at'])
    gap = FailingGap(func, case, None)
    folder = scratch_dir()
    override = {}
    if case['save'] is not None:
        override = dict(
            save_file=os.path.join(folder, 'state.hdf5'),
            save_delay=case['save']
        )
    at = case['cancel_at']
    running = []

    async def function(pos):
        if case['how'] == 'inside' and len(gap.calls) + 1 >= at:
            running.append(gap.running)
            tasks[0].cancel()
            await asyncio.sleep(0)
        return await gap.function(pos)

    tasks = []

    async def main():
        search = run_async(function, **search_kwargs(case, **override))
        if case['how'] == 'wait_for':
            search = asyncio.wait_for(search, at * 2e-4)
        task = asyncio.ensure_future(search)
        tasks.append(task)
        if case['how'] == 'outside':
            while not task.done() and len(gap.calls) < at:
                await asyncio.sleep(0)
            running.append(gap.running)
            task.cancel()
        try:
            res = 'ok', await task
        except (asyncio.CancelledError, asyncio.TimeoutError) as exc:
            res = 'error', exc
        num = len(gap.calls)
        await linger()
        return res, num, [
            t for t in asyncio.all_tasks() if t is not asyncio.current_task()
        ]

    loop = asyncio.new_event_loop()
    try:
        (kind, value), num, left = loop.run_until_complete(main())
    finally:
        loop.close()
    what = 'search cancelled ({}) at {}'.format(case['how'], at)
    require(
        len(gap.calls) == num, '{}: {} evaluations after the search had ended',
        what, len(gap.calls) - num
    )
    require(not left, '{}: tasks are left in the event loop: {}', what, left)
    if kind == 'ok':
        check_sound(case, value)
        shutil.rmtree(folder)
        return Report(False, ['not reached'])
    finished = 0
    if case['save'] is not None:
        finished = check_saved(case, func, folder, override, what)
    shutil.rmtree(folder)
    return Report(
        finished > 0 or max(running, default=0) > 1, [case['how']]
    )


# -- stages -----------------------------------------------------------------

@st.composite
def stage_cases(draw):
    case = draw(search_cases(
        max_mesh=3, dims=(1, 1, 2), independent=False, lines=False
    ))
    case['fake'] = draw(weighted((3, True), (1, False)))
    case['nm'] = {'maxfev': draw(st.sampled_from([12, 25, 60]))}
    case['function'] = draw(st.sampled_from(['sync', 'async']))
    case['faults'] = draw(st.lists(
        st.tuples(st.sampled_from(PLAIN), st.integers(0, 1000)),
        min_size=12, max_size=20
    ))
    return case


def run_stages(case):
    """Many errors, at evaluations of all parts of the same search."""
    func = make_gap(case['gap'], case['limits'], case['periodic'])
    clean = FailingGap(func, dict(case, at=-1, again=False, schedule=0), None)
    run(clean.function, **search_kwargs(case))
    total = len(clean.calls)
    for kind, part in case['faults']:
        error = make_error(kind)
        at = 1 + part * (total - 1) // 1000
        gap = FailingGap(
            func, dict(case, at=at, again=False, schedule=0), error
        )
        what = '{} raised in evaluation {} of {}'.format(kind, at, total)
        try:
            res = run(gap.function, **search_kwargs(case))
        except Hang:
            raise
        except BaseException as exc:
            require(
                exc is error, '{}: the caller got {!r} instead', what, exc
            )
        else:
            require(not gap.raised, '{}: the search returned {!r}', what, res)
        require(gap.raised, '{}: was not reached', what)
    return Report(total > 20, ['fake' if case['fake'] else 'plain'])


# -- dimensions -------------------------------------------------------------

@st.composite
def dimension_cases(draw):
    box = draw(boxes(dims=(1, 2, 3, 4)))
    dim = len(box['limits'])
    other = draw(st.integers(0, 5).filter(lambda x: x != dim))
    return dict(
        box, mesh=[draw(st.integers(1, 3)) for _ in range(other)],
        how=draw(st.sampled_from(['tuple', 'list', 'array'])),
        call=draw(st.sampled_from(MODES)),
        stencil=draw(st.sampled_from(['auto', None])),
        save=draw(st.booleans()),
        # also when the initial mesh is not used
        resume=draw(weighted((2, None), (1, 'state'), (1, 'load'))),
        force=draw(st.booleans()),
    )


def run_dimensions(case):
    calls = []

    def gap(pos):
        calls.append(pos)
        return 1.

    mesh = dict(tuple=tuple, list=list, array=np.array)[case['how']](
        case['mesh']
    )
    folder = scratch_dir()
    kwargs = dict(
        limits=[tuple(x) for x in case['limits']], periodic=case['periodic'],
        initial_mesh_size=mesh, refinement_stencil=case['stencil'],
        feature_size=1.
    )
    saved = []
    if case['resume']:
        limits = [(0, 1)] * len(case['limits'])
        old = ControllerState(
            result=SearchResultContainer(
                coordinate_system=CoordinateSystem(limits=limits),
                gap_threshold=1e-3, dist_cutoff=0.5
            ), simplex_queue=SimplexQueue(), position_queue=PositionQueue()
        )
        kwargs['force_initial_mesh'] = case['force']
        if case['resume'] == 'state':
            kwargs['initial_state'] = old
        else:
            saved = ['x.hdf5']
            kwargs.update(
                save_file=os.path.join(folder, 'x.hdf5'), load=True,
                load_quiet=False
            )
            nf.io.save(old, kwargs['save_file'])
    if case['save']:
        kwargs['save_file'] = os.path.join(folder, 'x.hdf5')
    old_hook = threading.excepthook
    threading.excepthook = lambda *args: None
    try:
        (kind, value), _ = call_search(case['call'], gap, kwargs)
    finally:
        threading.excepthook = old_hook
    require(
        kind == 'error' and isinstance(value, ValueError),
        'no ValueError for limits of dimension {} and mesh size {}: {!r}',
        len(case['limits']), mesh, value
    )
    require(not calls, 'the gap was evaluated in spite of wrong dimensions')
    require(os.listdir(folder) == saved, 'a file was created')
    shutil.rmtree(folder)
    return Report(True, [case['call']])


SUBS = [
    Sub('faults', cases(), run_case, 480, 16000, shards=16),
    Sub('cancelled', cancel_cases(), run_cancelled, 160, 6000, shards=16),
    Sub('stages', stage_cases(), run_stages, 240, 6000, shards=16),
    Sub('dimensions', dimension_cases(), run_dimensions, 160, 1600),
]
