"""C09: the save file is never incomplete, failed saves leave no trace."""
import errno
import pathlib
import random
import shutil
import sys
import time

import h5py

from common import *
from checks import c08_resume as c08

ID = 'C09'
LEVEL = 'fault_enumeration'
TECHNIQUE = (
    'property-based fault injection: observation of the save file at every '
    'function call, and generated failures of file operations'
)
NOTE = (
    'During searches with continuous saving, the save file is inspected at '
    'each Python and C function call; whenever it changed it is loaded and '
    'checked. Failures (of several kinds) are injected at generated HDF5 '
    'writes, file creations and renames. Failures are sampled over all '
    'operations; power loss is not modelled.'
)
RULE = (
    'observe: random small searches, also ended by an error of the gap '
    'function. fault: with a failure injected at an operation. '
    'delay: time between saves of searches with slow evaluations. Non-trivial: '
    'the save file was replaced at least once by a state with both results '
    'and remaining work / a save failed after another one succeeded.'
)
ASSUMPTIONS = [
    'The file is observed at function calls of the thread running the search; '
    'it can change at other times only if a single C call does several steps.'
]


@st.composite
def cases(draw, fault):
    independent = draw(st.booleans())
    if independent:
        case = draw(search_cases(
            independent=True, max_mesh=5, dims=(1, 2), nm=False
        ))
    else:
        case = draw(search_cases(
            stencil='yes', max_mesh=3, dims=(1, 2), lines=False, nm=False
        ))
    case['nm'] = dict(maxfev=draw(st.sampled_from([6, 20, 40])))
    case['mode'] = draw(st.sampled_from(['sync', 'async']))
    case['schedule'] = draw(st.integers(0, 10**6))
    case['existing'] = draw(st.sampled_from(['none', 'state', 'other']))
    case['relative'] = draw(st.booleans())
    case['name'] = draw(st.sampled_from(
        ['state.hdf5', 'state.hdf5', 'state', 'a b.h5', 'st\u00e4te.hdf5',
         '.hidden', 'sub/state.hdf5', '../folder/state.p']
    ))
    case['other_tmp'] = draw(weighted((2, False), (1, True)))
    case['path_type'] = draw(st.sampled_from(['str', 'str', 'str', 'Path']))
    if fault:
        case['fault'] = dict(
            op=draw(st.sampled_from(['hdf5', 'hdf5', 'rename', 'open'])),
            at=draw(floats(0, 1)),
            exc=draw(st.sampled_from(
                ['OSError', 'RuntimeError', 'MemoryError', 'KeyboardInterrupt',
                 'SystemExit', 'ValueError']
            )),
            times=draw(st.sampled_from([1, 1, 10**6])),
        )
    elif draw(weighted((1, True), (2, False))):
        case['raise_at'] = draw(st.integers(1, 60))
    return case


class InjectedError(Exception):
    pass


class Observer:
    """
    Looks at the save file at every function call, and checks it if it
    changed.
    """
    def __init__(self, path, check, may_be_absent):
        self.path = path
        self.check = check
        self.may_be_absent = may_be_absent
        self.last = self.stat()
        self.changes = 0
        self.active = False
        self.error = None
        self.events = 0

    def stat(self):
        try:
            res = os.stat(self.path)
        except FileNotFoundError:
            return None
        return (res.st_ino, res.st_size, res.st_mtime_ns)

    def __call__(self, frame, event, arg):
        if self.active or self.error is not None:
            return
        self.active = True
        try:
            self.events += 1
            now = self.stat()
            if now != self.last:
                self.look(now)
        finally:
            self.active = False

    def look(self, now):
        self.last = now
        self.changes += 1
        try:
            if now is None:
                raise Violation('the save file was removed')
            self.check(self.path)
        except Exception as exc:
            # reported after the search
            self.error = exc

    def __enter__(self):
        self.old = sys.getprofile()
        sys.setprofile(self)
        return self

    def __exit__(self, *exc):
        sys.setprofile(self.old)
        if self.error is None:
            now = self.stat()
            if now != self.last:
                self.look(now)


def fail(message, *args):
    raise Violation(message.format(*args))


def other_filesystem(folder):
    """
    A folder for temporary files on another file system than the save file,
    if there is one.
    """
    try:
        res = tempfile.mkdtemp(prefix='nfverif-', dir='/dev/shm')
    except OSError:
        return None
    if os.stat(res).st_dev == os.stat(folder).st_dev:
        os.rmdir(res)
        return None
    return res


class Setup:
    """A scratch folder with the save file."""

    def __init__(self, case):
        self.case = case
        self.name = case.get('name', 'state.hdf5')
        self.folder = scratch_dir()
        if self.name.startswith('../folder'):
            self.folder = os.path.join(self.folder, 'folder')
            os.mkdir(self.folder)
            self.name = self.name.split('/')[-1]
        self.path = os.path.join(self.folder, self.name)
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.func = make_gap(case['gap'], case['limits'], case['periodic'])
        if case['existing'] == 'state':
            # state of another search
            other = dict(case, mesh=[1] * len(case['mesh']), nm=dict(maxfev=3))
            run_search(other, save_file=self.path)
        elif case['existing'] == 'other':
            with open(self.path, 'wb') as f:
                f.write(b'something else')
        self.states = []
        self.original = self.content()

    def content(self):
        if not os.path.exists(self.path):
            return None
        with open(self.path, 'rb') as f:
            return f.read()

    def check(self, path):
        try:
            state = nf.io.load(path)
        except Exception as exc:
            fail('the save file could not be loaded: {!r}', exc)
        c08.check_state(self.case, state)
        self.states.append((
            len(state.result.minimization_results),
            len(state.simplex_queue.objects)
        ))

    def files(self):
        return sorted(
            os.path.relpath(os.path.join(top, name), self.folder)
            for top, _, names in os.walk(self.folder) for name in names
        )

    def search(self, hook, func=None):
        case = self.case
        path = self.path
        if case['relative']:
            os.chdir(self.folder)
            path = case.get('name', 'state.hdf5')
        if case.get('path_type') == 'Path':
            path = pathlib.Path(path)
        tempdir = tempfile.tempdir
        other = other_filesystem(self.folder) if case.get('other_tmp') else None
        tempfile.tempdir = other or tempdir
        try:
            return run_new_loop(case, func or self.func, path, hook)
        finally:
            os.chdir('/')
            tempfile.tempdir = tempdir
            if other:
                shutil.rmtree(other)


def run_new_loop(case, func, path, hook):
    override = dict(save_file=path, save_delay=0.)
    if case['mode'] == 'async':
        gap = ControlledGap(func, hook)
        return run_controlled(
            case, gap, random.Random(case['schedule']), **override
        ), gap
    gap = c08.AsyncHookedGap(func, hook)
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(
            run_async(gap, **search_kwargs(case, **override))
        ), gap
    finally:
        loop.close()


def run_observe(case):
    setup = Setup(case)
    raise_at = case.get('raise_at')
    count = [0]
    results = []

    def hook(_):
        count[0] += 1
        if count[0] == raise_at:
            raise InjectedError

    observer = Observer(
        setup.path, setup.check, setup.original is None
    )
    raised = False
    with observer:
        try:
            results.append(setup.search(hook)[0])
        except InjectedError:
            raised = True
    if observer.error is not None:
        raise observer.error
    require(observer.changes > 0, 'the state was never saved')
    require(
        setup.files() == [setup.name],
        'there are other files: {}', setup.files()
    )
    state = nf.io.load(setup.path)
    left = c08.check_state(case, state)
    if not raised:
        result, = results
        c08.match_results(
            Box(case['limits'], case['periodic']),
            state.result.minimization_results, result.minimization_results,
            'final state'
        )
        require(
            sorted(tuple(map(float, p)) for p in state.result.refined_results)
            == sorted(tuple(map(float, p)) for p in result.refined_results),
            'the final state does not have all refined positions'
        )
        require(
            left == 0 and not state.position_queue.objects,
            'the final state has work left'
        )
    shutil.rmtree(setup.folder)
    partial = [s for s in setup.states if s[0] and s[1]]
    return Report(
        bool(partial), ['raised' if raised else 'finished', case['mode']],
        dict(saves=observer.changes, observations=observer.events)
    )


EXCEPTIONS = dict(
    OSError=lambda: OSError(errno.ENOSPC, 'no space left (injected)'),
    RuntimeError=lambda: RuntimeError('injected'),
    MemoryError=lambda: MemoryError('injected'),
    KeyboardInterrupt=lambda: KeyboardInterrupt('injected'),
    SystemExit=lambda: SystemExit('injected'),
    ValueError=lambda: ValueError('injected'),
)


class Faults:
    """Counts the operations of one kind, and lets some of them fail."""

    def __init__(self, op, at=None, make=None, times=1, on_fail=None):
        self.op = op
        self.at = at
        self.make = make
        self.times = times
        self.count = 0
        self.injected = []
        self.on_fail = on_fail
        self.patches = []
        self.enabled = True

    def wrap(self, orig):
        def wrapper(*args, **kwargs):
            if self.enabled:
                self.count += 1
                if self.at is not None and (
                    self.at <= self.count < self.at + self.times
                ):
                    exc = self.make()
                    if not self.injected and self.on_fail is not None:
                        self.on_fail()
                    self.injected.append(exc)
                    raise exc
            return orig(*args, **kwargs)
        return wrapper

    def patch(self, obj, name):
        orig = obj.__dict__[name] if isinstance(obj, type) else getattr(
            obj, name
        )
        self.patches.append((obj, name, orig))
        setattr(obj, name, self.wrap(orig))

    def __enter__(self):
        if self.op == 'hdf5':
            self.patch(h5py.Group, '__setitem__')
            self.patch(h5py.Group, 'create_group')
        elif self.op == 'open':
            self.patch(h5py.File, '__init__')
        else:
            for name in ['rename', 'replace', 'link']:
                self.patch(os, name)
            for name in ['move', 'copyfile', 'copy', 'copy2', 'copyfileobj']:
                self.patch(shutil, name)
        return self

    def __exit__(self, *exc):
        for obj, name, orig in self.patches:
            setattr(obj, name, orig)


def run_fault(case):
    fault = case['fault']
    # count the operations
    setup = Setup(case)
    with Faults(fault['op']) as counter:
        setup.search(lambda _: None)
    total = counter.count
    shutil.rmtree(setup.folder)
    require(total > 0, 'nothing was saved')

    setup = Setup(case)
    before = [None]

    def on_fail():
        before[0] = setup.content()

    faults = Faults(
        fault['op'], at=1 + min(total - 1, int(fault['at'] * total)),
        make=EXCEPTIONS[fault['exc']], times=fault['times'], on_fail=on_fail
    )

    def check(path):
        faults.enabled = False
        try:
            setup.check(path)
        finally:
            faults.enabled = True

    observer = Observer(setup.path, check, setup.original is None)
    caught = None
    with faults, observer:
        try:
            setup.search(lambda _: None)
        except BaseException as exc:
            if isinstance(exc, Hang):
                raise
            caught = exc
    if observer.error is not None:
        raise observer.error
    if not faults.injected:
        # schedules of saves are not entirely deterministic
        return Report(False, ['not-reached'])
    require(caught is not None, 'a failed save was not reported')
    chain = []
    exc = caught
    while exc is not None and len(chain) < 20:
        chain.append(exc)
        exc = exc.__cause__ or exc.__context__
    require(
        any(e is f for e in chain for f in faults.injected),
        'another error ({!r}) was reported for the failed save', caught
    )
    if observer.changes == 0 or fault['times'] > 1:
        require(
            setup.content() == before[0],
            'the save file was changed by a failed save'
        )
    expected = [setup.name] if setup.content() is not None else []
    require(
        setup.files() == expected, 'there are other files after a failed '
        'save: {}', setup.files()
    )
    if observer.changes == 0:
        require(
            setup.content() == setup.original, 'the previous file was changed'
        )
    shutil.rmtree(setup.folder)
    return Report(
        observer.changes > 0, [fault['op'], fault['exc'], case['existing']],
        dict(saves=observer.changes, observations=observer.events)
    )


def run_nofolder(case):
    """The folder of the save file does not exist."""
    setup = Setup(case)
    path = os.path.join(setup.folder, 'missing', 'state.hdf5')
    caught = None
    try:
        run_new_loop(case, setup.func, path, lambda _: None)
    except Exception as exc:
        caught = exc
    require(isinstance(caught, OSError), 'saving to a missing folder was not '
            'reported, but {!r}', caught)
    require(
        setup.files() == ([setup.name] if setup.original is not None else [])
        and setup.content() == setup.original, 'files were changed'
    )
    shutil.rmtree(setup.folder)
    return Report(True)


# -- time between saves -----------------------------------------------------

@st.composite
def delay_cases(draw):
    case = draw(search_cases(
        independent=True, max_mesh=4, dims=(1, 2), nm=False
    ))
    case['mesh'] = [draw(st.integers(30, 60))] + [2] * (len(case['mesh']) - 1)
    case['nm'] = dict(maxfev=6)
    case['parallel'] = draw(st.integers(1, 4))
    case['delay'] = draw(st.sampled_from([0.02, 0.05, 0.15, None]))
    case['existing'] = 'none'
    return case


def run_delay(case):
    """
    Saves are as far apart as requested, and the state is saved that often
    when evaluations take time.
    """
    folder = scratch_dir()
    path = os.path.join(folder, 'state.hdf5')
    func = make_gap(case['gap'], case['limits'], case['periodic'])
    delay = 5. if case['delay'] is None else case['delay']
    options = {} if case['delay'] is None else dict(save_delay=case['delay'])
    times = []
    count = [0, 0]

    def look():
        try:
            now = os.stat(path).st_mtime_ns
        except FileNotFoundError:
            return
        if not times or now != times[-1][0]:
            times.append((now, time.monotonic()))
            count[1] = 0

    async def gap(pos):
        look()
        count[0] += 1
        if times and time.monotonic() > times[-1][1] + delay:
            # (a few minimizations finish in this number of evaluations)
            count[1] += 1
            require(
                count[1] < 250, 'no save in {} evaluations after the delay of '
                '{} seconds', count[1], delay
            )
        await asyncio.sleep(1e-3)
        return func(tuple(float(x) for x in pos))

    start = time.monotonic()
    run(gap, **search_kwargs(case, save_file=path, **options))
    total = time.monotonic() - start
    require(os.path.exists(path), 'no save file after the search')
    # (the last one observed in the search can not be the final save)
    stamps = [t for t, _ in times]
    for one, two in zip(stamps, stamps[1:]):
        require(
            (two - one) * 1e-9 >= delay - 0.01,
            'saves {} s apart, with a delay of {} s', (two - one) * 1e-9,
            delay
        )
    shutil.rmtree(folder)
    return Report(
        len(stamps) > 2 or (delay == 5. and count[0] > 100),
        ['delay-{}'.format(case['delay'])], dict(saves=len(stamps),
                                                 seconds=round(total, 2))
    )


SUBS = [
    Sub('delay', delay_cases(), run_delay, 48, 600, shards=16),
    Sub('observe', cases(False), run_observe, 96, 3000, shards=16),
    Sub('fault', cases(True), run_fault, 240, 8000, shards=16),
    Sub('nofolder', cases(False), run_nofolder, 16, 200),
]
