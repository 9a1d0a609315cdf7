"""
Driver for the property checks.

A check is a module in ``checks`` which defines

    ID, LEVEL, RULE, ASSUMPTIONS, SUBS

where SUBS is a list of :class:`Sub`. Each Sub couples a Hypothesis strategy
producing JSON-serializable cases with a function ``run(case)``, which executes
the code under test and compares it to the oracle. ``run`` returns a
:class:`Report` and raises an exception (normally :class:`Violation`) when the
property does not hold.

The cases of each Sub are split into shards with seeds derived from VERIF_SEED,
which run in forked worker processes. A failing case is shrunk by Hypothesis
and written to a replay file, which can be run again without Hypothesis.
"""

import asyncio
import hashlib
import importlib
import json
import logging
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

_HYP_ROOT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class _HypothesisFinder:
    """Makes Hypothesis (and nothing else) importable from the tools venv."""

    NAMES = ('hypothesis', '_hypothesis_globals', 'sortedcontainers', 'attr',
             '_hypothesis_pytestplugin', '_hypothesis_ftz_detector')

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        from importlib.machinery import PathFinder
        if path is None and name in cls.NAMES:
            return PathFinder.find_spec(name, [_HYP_ROOT])
        return None


def setup_imports():
    sys.path.insert(0, HERE)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.meta_path.append(_HypothesisFinder)
        import hypothesis  # noqa: F401
    # The code under test is always the current working tree of REPO.
    sys.path.insert(0, REPO)
    import nodefinder
    path = os.path.realpath(nodefinder.__file__)
    expected = os.path.realpath(os.path.join(REPO, 'nodefinder'))
    if os.path.dirname(path) != expected:
        raise RuntimeError('nodefinder imported from {}'.format(path))


class Violation(Exception):
    """The property does not hold."""


class Hang(KeyboardInterrupt):
    """The code under test did not finish. Derives from KeyboardInterrupt such
    that event loops do not swallow it."""


# called with the exception if raising it repeatedly did not help
HANG_FALLBACK = [None]


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Report:
    """What happened in a single case."""
    __slots__ = ('nontrivial', 'labels', 'counts')

    def __init__(self, nontrivial=False, labels=(), counts=None):
        self.nontrivial = bool(nontrivial)
        self.labels = list(labels)
        self.counts = counts or {}


class Sub:
    """
    One generated check.

    quick, thorough : total number of cases in the two tiers.
    cpu_limit : CPU seconds after which a case counts as not terminating
        (orders of magnitude more than any case needs).
    """
    def __init__(self, name, strategy, run, quick, thorough=None, shards=8,
                 cpu_limit=90, shrink=True, idle_limit=45):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else 10 * quick
        self.shards = shards
        self.cpu_limit = cpu_limit
        self.shrink = shrink
        self.idle_limit = idle_limit


def derive_seed(*parts):
    data = '/'.join(str(p) for p in parts).encode()
    return int.from_bytes(hashlib.sha256(data).digest()[:7], 'big')


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()
                        ).hexdigest()[:16]


# --------------------------------------------------------------------------
# Running a single case
# --------------------------------------------------------------------------

class _Watchdog:
    """Raises Hang in the main thread if a case needs too much CPU time, or
    does nothing at all (deadlock) for a long time."""
    TICK = 5.

    def __init__(self, cpu_limit, idle_limit):
        self.cpu_limit = cpu_limit
        self.idle_limit = idle_limit

    @staticmethod
    def _cpu():
        use = resource.getrusage(resource.RUSAGE_SELF)
        child = resource.getrusage(resource.RUSAGE_CHILDREN)
        return use.ru_utime + use.ru_stime + child.ru_utime + child.ru_stime

    def _raise(self, msg):
        self.num_raised += 1
        if self.num_raised > 3 and HANG_FALLBACK[0] is not None:
            HANG_FALLBACK[0](Hang(msg))
        raise Hang(msg)

    def _handler(self, signum, frame):
        now = time.monotonic()
        cpu = self._cpu()
        if cpu - self.start_cpu > self.cpu_limit:
            self._raise(
                'did not terminate within {} s of CPU time'.format(
                    self.cpu_limit
                )
            )
        if cpu - self.last_cpu > 0.1:
            self.last_cpu = cpu
            self.last_active = now
        elif now - self.last_active > self.idle_limit:
            self._raise(
                'made no progress for {} s (deadlock)'.format(self.idle_limit)
            )

    def __enter__(self):
        self.start_cpu = self.last_cpu = self._cpu()
        self.last_active = time.monotonic()
        self.num_raised = 0
        self._old = signal.signal(signal.SIGALRM, self._handler)
        signal.setitimer(signal.ITIMER_REAL, self.TICK, self.TICK)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self._old)


class _NullStream:
    def write(self, text):
        pass

    def flush(self):
        pass


def set_logging(case):
    """
    Set the level of the log messages. They are discarded, but written in all
    detail for some of the cases, which may not make any difference.
    """
    level = int(derive_seed('logging', case_hash(case))) % 8
    logger = logging.getLogger('nodefinder')
    logger.setLevel(
        {0: logging.DEBUG, 1: logging.INFO}.get(level, logging.NOTSET)
    )
    logging.raiseExceptions = False
    for handler in logger.handlers:
        if isinstance(handler, logging.StreamHandler):
            handler.setStream(_NullStream())


def run_case(sub, case):
    """Run a single case in a defined environment."""
    random.seed(derive_seed('case', case_hash(case)))
    set_logging(case)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with _Watchdog(sub.cpu_limit, sub.idle_limit):
            try:
                res = sub.run(case)
            except Hang:
                raise
            except (
                KeyboardInterrupt, SystemExit, asyncio.CancelledError
            ) as exc:
                # not from outside, since all checks expect those they cause
                raise Violation(describe(exc)) from exc
    assert isinstance(res, Report), res
    return res


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    if isinstance(exc, Hang):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ' <- '.join(
        '{}:{}'.format(os.path.basename(f.filename), f.lineno)
        for f in tb[::-1][:4]
    )
    return 'unexpected {}: {} (at {})'.format(
        type(exc).__name__, exc, where
    )


# --------------------------------------------------------------------------
# Worker
# --------------------------------------------------------------------------

class _Stop(BaseException):
    pass


def _run_shard(sub, seed, num, deadline, out_path):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    state = {
        'evaluations': 0, 'nontrivial': set(), 'labels': Counter(),
        'counts': Counter(), 'samples': [], 'failure': None, 'distinct': set(),
        'skipped': 0,
    }
    shrink_limit = [None]

    def fail(case, exc):
        text = json.dumps(case, sort_keys=True)
        prev = state['failure']
        if prev is None or len(text) <= len(prev['text']):
            state['failure'] = {
                'text': text, 'case': case, 'message': describe(exc)
            }
        if shrink_limit[0] is None:
            shrink_limit[0] = time.monotonic() + 20
        dump()

    def dump():
        res = dict(
            evaluations=state['evaluations'],
            nontrivial=sorted(state['nontrivial']),
            distinct=len(state['distinct']),
            labels=dict(state['labels']),
            counts=dict(state['counts']),
            samples=state['samples'],
            failure=state['failure'],
            skipped=state['skipped'],
        )
        tmp = out_path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(res, f)
        os.rename(tmp, out_path)

    phases = [Phase.explicit, Phase.generate]
    if sub.shrink and not os.environ.get('VERIF_NOSHRINK'):
        phases.append(Phase.shrink)

    @hypothesis.seed(seed)
    @settings(
        max_examples=num, database=None, deadline=None, phases=phases,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        verbosity=hypothesis.Verbosity.quiet, print_blob=False,
    )
    @given(sub.strategy)
    def test(case):
        if shrink_limit[0] is not None:
            if time.monotonic() > shrink_limit[0]:
                raise _Stop
        elif time.monotonic() > deadline:
            state['skipped'] += 1
            return
        def fallback(exc):
            fail(case, exc)
            os._exit(0)

        HANG_FALLBACK[0] = fallback
        try:
            rep = run_case(sub, case)
        except Hang as exc:
            fail(case, exc)
            raise _Stop
        except Exception as exc:
            fail(case, exc)
            raise
        if state['failure'] is None:
            state['evaluations'] += 1
            key = case_hash(case)
            state['distinct'].add(key)
            if rep.nontrivial:
                state['nontrivial'].add(key)
            state['labels'].update(rep.labels)
            state['counts'].update(rep.counts)
            if rep.nontrivial and len(state['samples']) < 2:
                text = json.dumps(case, sort_keys=True)
                state['samples'].append(
                    case if len(text) < 1500 else text[:1500] + '...'
                )

    error = None
    try:
        test()
    except (_Stop, Exception) as exc:
        if state['failure'] is None:
            error = ''.join(
                traceback.format_exception(type(exc), exc, exc.__traceback__)
            )
    dump()
    if error is not None:
        with open(out_path + '.err', 'w') as f:
            f.write(error)


# --------------------------------------------------------------------------
# Parent
# --------------------------------------------------------------------------

def load_check(prop):
    for name in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if name.lower().startswith(prop.lower() + '_') and name.endswith('.py'):
            return importlib.import_module('checks.' + name[:-3])
    raise SystemExit('no check for {}'.format(prop))


def _quiet_child(log):
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def _spawn(func, log):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 3
    try:
        os.setpgid(0, 0)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        _quiet_child(log)
        func()
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)


def _kill(pids):
    for pid in pids:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    for pid in pids:
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass


def known_findings(prop):
    res = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('KNOWN-FINDING: property=' + prop + ' '):
                    res.append(line)
    return res


def load_regressions(prop):
    path = os.path.join(VERIF, 'regressions', prop + '.jsonl')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(line) for line in f if line.strip()]


def run_check(prop, tier, seed, only=None):
    start = time.monotonic()
    mod = load_check(prop)
    subs = [s for s in mod.SUBS if only is None or s.name == only]
    scratch = tempfile.mkdtemp(prefix='nfverif-')
    os.environ['NFVERIF_SCRATCH'] = scratch
    try:
        return _run_check(mod, subs, prop, tier, seed, scratch, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run_check(mod, subs, prop, tier, seed, scratch, start):
    workers = int(os.environ.get('VERIF_WORKERS', '8'))
    budget = float(os.environ.get(
        'VERIF_BUDGET', 240 if tier == 'quick' else 3000
    ))
    deadline = start + budget

    tasks = []
    regressions = load_regressions(prop)
    if regressions:
        tasks.append(('regressions', None, 0, 0))
    for sub in subs:
        total = sub.quick if tier == 'quick' else sub.thorough
        total = max(1, int(total * float(os.environ.get('VERIF_SCALE', 1))))
        shards = min(sub.shards, total)
        if tier != 'quick':
            shards *= 4
        for i in range(shards):
            num = total // shards + (1 if i < total % shards else 0)
            if num:
                tasks.append((sub.name, sub, i, num))
    # mix the subs
    tasks.sort(key=lambda t: t[2])

    by_name = {s.name: s for s in mod.SUBS}

    def regression_task(out_path):
        failure = None
        count = 0
        for entry in regressions:
            sub = by_name[entry['sub']]
            try:
                run_case(sub, entry['case'])
                count += 1
            except (Hang, Exception) as exc:
                failure = dict(
                    case=entry['case'], message=describe(exc),
                    text='', sub=entry['sub']
                )
                break
        with open(out_path, 'w') as f:
            json.dump(dict(
                evaluations=count, nontrivial=[], distinct=count, labels={},
                counts={}, samples=[], failure=failure, skipped=0
            ), f)

    running = {}
    queue = list(enumerate(tasks))
    results = {}
    failures = []
    errors = []
    sub_wall = Counter()

    while queue or running:
        while queue and len(running) < workers:
            idx, task = queue.pop(0)
            name, sub, shard, num = task
            out = os.path.join(scratch, 'task{}.json'.format(idx))
            log = os.path.join(scratch, 'task{}.log'.format(idx))
            if sub is None:
                func = (lambda out=out: regression_task(out))
            else:
                shard_seed = derive_seed(seed, prop, name, shard)
                func = (
                    lambda sub=sub, s=shard_seed, num=num, out=out:
                    _run_shard(sub, s, num, deadline, out)
                )
            pid = _spawn(func, log)
            running[pid] = (idx, task, out, log, time.monotonic())
        pid, status = os.wait()
        if pid not in running:
            continue
        idx, task, out, log, t_start = running.pop(pid)
        sub_wall[task[0]] += time.monotonic() - t_start
        # leftover processes of this worker
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
            results[idx] = res
            if res['failure'] is not None:
                failures.append((res['failure'].get('sub', task[0]), res))
                break
        if os.path.exists(out + '.err') or not os.path.exists(out):
            msg = 'worker {} ended with status {}\n'.format(task[0], status)
            for path in (out + '.err', log):
                if os.path.exists(path):
                    with open(path, errors='replace') as f:
                        msg += f.read()[-3000:]
            errors.append(msg)
            break
    _kill(list(running))

    # ---- aggregate
    evaluations = sum(r['evaluations'] for r in results.values())
    skipped = sum(r['skipped'] for r in results.values())
    nontrivial = set()
    per_sub = {}
    samples = []
    for idx, res in sorted(results.items()):
        name = tasks[idx][0]
        nontrivial.update((name, h) for h in res['nontrivial'])
        entry = per_sub.setdefault(name, dict(
            evaluations=0, nontrivial=0, labels=Counter(), counts=Counter()
        ))
        entry['evaluations'] += res['evaluations']
        entry['nontrivial'] += len(res['nontrivial'])
        entry['labels'].update(res['labels'])
        entry['counts'].update(res['counts'])
        if res['samples'] and len([s for s in samples if s['check'] == name]) < 2:
            samples.append({'check': name, 'case': res['samples'][0]})
    for name, entry in per_sub.items():
        entry['labels'] = dict(entry['labels'].most_common(40))
        entry['counts'] = dict(entry['counts'])
        entry['worker_seconds'] = round(sub_wall[name], 1)

    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': mod.LEVEL,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': samples[:12],
            'checks': per_sub,
            'skipped_over_time_budget': skipped,
            'regression_cases': len(regressions),
        },
        'assumptions': mod.ASSUMPTIONS,
        'wall_s': round(time.monotonic() - start, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    text = json.dumps(evidence, indent=1)
    while len(text) > 60000 and evidence['coverage']['samples']:
        evidence['coverage']['samples'].pop()
        text = json.dumps(evidence, indent=1)
    with open(path, 'w') as f:
        f.write(text)

    if failures:
        name, res = failures[0]
        fail = res['failure']
        rep_dir = os.path.join(VERIF, 'replays')
        os.makedirs(rep_dir, exist_ok=True)
        rep = os.path.join(rep_dir, '{}-{}.json'.format(prop, name))
        with open(rep, 'w') as f:
            json.dump(
                dict(property=prop, sub=name, case=fail['case'],
                     message=fail['message']), f, indent=1
            )
        print('check {} failed: {}'.format(name, fail['message'][:2000]))
        print('VIOLATION property={} replay={}'.format(prop, rep))
        return 1
    if errors:
        print('ERROR in check {}:\n{}'.format(prop, errors[0]))
        return 2
    for line in known_findings(prop):
        print(line)
    print('{}: held in {} cases ({} distinct non-trivial) in {:.1f} s'.format(
        prop, evaluations, len(nontrivial), time.monotonic() - start
    ))
    return 0


def replay(prop, path):
    mod = load_check(prop)
    with open(path) as f:
        entry = json.load(f)
    sub = {s.name: s for s in mod.SUBS}[entry['sub']]
    scratch = tempfile.mkdtemp(prefix='nfverif-')
    os.environ['NFVERIF_SCRATCH'] = scratch
    try:
        try:
            rep = run_case(sub, entry['case'])
        except (Hang, Exception) as exc:
            if not isinstance(exc, Violation):
                traceback.print_exc()
            print('check {} failed: {}'.format(entry['sub'], describe(exc)))
            print('VIOLATION property={} replay={}'.format(prop, path))
            return 1
        print('{}: held ({})'.format(prop, rep.labels))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
