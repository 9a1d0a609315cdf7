"""C18: results do not depend on how the search is called."""
import concurrent.futures
import functools
import random
import threading

from common import *

ID = 'C18'
LEVEL = 'exploration'
TECHNIQUE = 'property-based differential testing of calling contexts'
NOTE = (
    'Generated searches are called in a generated sequence of contexts (main '
    'thread, other threads, closed or running loops, concurrently, '
    'synchronous and asynchronous gap functions) and compared bit by bit.'
)
RULE = (
    'Non-trivial: the search has at least two minimizations, and was called '
    'in at least two different contexts.'
)
ASSUMPTIONS = [
    'Gap functions which suspend are only compared for independent '
    'minimizations, or when minimizing one at a time: otherwise the order of '
    'completion may influence the search.'
]

CONTEXTS = [
    'main', 'no-loop', 'closed', 'closed-set', 'thread', 'loop', 'async',
    'loop-thread', 'asyncio-run', 'executor', 'nested', 'reused'
]


@st.composite
def cases(draw):
    case = draw(search_cases(
        max_mesh=6, dims=(1, 2, 2, 3), independent=draw(st.booleans()),
        lines=False
    ))
    case['nm'] = dict(case['nm'])
    if 'maxiter' not in case['nm']:
        case['nm'].setdefault('maxfev', draw(st.sampled_from([25, 60])))
    case['calls'] = draw(st.lists(st.tuples(
        st.sampled_from(CONTEXTS), st.sampled_from(
            ['sync', 'async', 'slow', 'object', 'partial', 'awaitable']
        )
    ).map(list), min_size=2, max_size=5))
    case['concurrent'] = draw(st.sampled_from([None, 'gather', 'threads']))
    # other searches which share some of the inputs
    case['others'] = draw(st.lists(st.fixed_dictionaries(dict(
        gap_threshold=st.sampled_from([1., 0.1, 3.]),
        feature_size=st.sampled_from([1., 0.5, 1.5]),
        recheck_pos_dist=st.booleans(),
        num_minimize_parallel=st.sampled_from([1, 3, 50]),
    )), max_size=2))
    case['schedule'] = draw(st.integers(0, 10**6))
    return case


def make_function(func, kind, rng):
    def sync(pos):
        return func(tuple(float(x) for x in pos))

    if kind == 'sync':
        return sync
    if kind == 'async':
        async def plain(pos):
            return sync(pos)
        return plain
    if kind == 'awaitable':
        # not a coroutine function, but returns an awaitable
        async def inner(pos):
            return sync(pos)
        return lambda pos: inner(pos)
    if kind == 'partial':
        return functools.partial(lambda extra, pos: sync(pos), None)
    if kind == 'object':
        return _Callable(sync)

    async def slow(pos):
        for _ in range(rng.choice([0, 1, 1, 2, 5])):
            await asyncio.sleep(0)
        return sync(pos)
    return slow


class _Callable:
    def __init__(self, func):
        self.func = func

    def __call__(self, pos):
        return self.func(pos)


def in_thread(func):
    out = []

    def target():
        try:
            out.append(('ok', func()))
        except BaseException as exc:
            out.append(('error', exc))

    thread = threading.Thread(target=target, daemon=True)
    thread.start()
    thread.join()
    if out[0][0] == 'error':
        raise out[0][1]
    return out[0][1]


def use_loop(loop):
    """A loop must stay usable."""
    async def task():
        await asyncio.sleep(0)
        return 17
    require(not loop.is_closed(), 'the loop of the caller was closed')
    require(
        loop.run_until_complete(task()) == 17, 'the loop cannot be used'
    )


def call(context, function, kwargs, state):
    if context in ('main', 'reused'):
        loop = state.get('loop') if context == 'reused' else None
        if loop is None:
            loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        res = run(function, **kwargs)
        require(
            asyncio.get_event_loop() is loop, 'the loop of the caller was '
            'replaced'
        )
        use_loop(loop)
        asyncio.set_event_loop(None)
        if state.get('loop') is None:
            state['loop'] = loop
        elif state['loop'] is not loop:
            loop.close()
        return res
    if context == 'no-loop':
        asyncio.set_event_loop(None)
        return run(function, **kwargs)
    if context in ('closed', 'closed-set'):
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        loop.close()
        if context == 'closed':
            asyncio.set_event_loop(None)
        try:
            return run(function, **kwargs)
        finally:
            asyncio.set_event_loop(None)
    if context == 'thread':
        return in_thread(lambda: run(function, **kwargs))
    if context == 'loop-thread':
        # a thread with its own loop
        def target():
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                res = run(function, **kwargs)
                use_loop(loop)
                return res
            finally:
                loop.close()
        return in_thread(target)
    if context == 'asyncio-run':
        return asyncio.run(run_async(function, **kwargs))

    async def inner():
        ticks = []

        async def other():
            while True:
                ticks.append(1)
                await asyncio.sleep(0)

        task = asyncio.ensure_future(other())
        await asyncio.sleep(0)
        if context == 'loop':
            res = run(function, **kwargs)
        elif context == 'nested':
            # a search within the gap function of a search
            out = []

            def gap(pos):
                if not out:
                    out.append(run(function, **kwargs))
                return abs(float(pos[0]) - 0.3)

            run(gap, limits=[(0, 1)], initial_mesh_size=2, feature_size=0.5)
            res = out[0]
        elif context == 'executor':
            loop = asyncio.get_event_loop()
            with concurrent.futures.ThreadPoolExecutor(1) as pool:
                res = await loop.run_in_executor(
                    pool, lambda: run(function, **kwargs)
                )
        else:
            res = await run_async(function, **kwargs)
        await asyncio.sleep(0)
        require(not task.done(), 'other tasks of the loop were stopped')
        task.cancel()
        return res

    loop = asyncio.new_event_loop()
    try:
        res = loop.run_until_complete(inner())
        use_loop(loop)
        return res
    finally:
        loop.close()


def run_case(case):
    func = make_gap(case['gap'], case['limits'], case['periodic'])
    rng = random.Random(case['schedule'])
    dim = len(case['limits'])
    independent = case['stencil'] is None and not case['fake'] and (
        case['simplex_check_cutoff'] > dim
    )
    kwargs = search_kwargs(case)
    reference, _ = run_search(case)
    expected = container_key(reference)

    def compare(result, what):
        got = container_key(result)
        for key in expected:
            require(
                got[key] == expected[key],
                '{}: {} differs from that of a plain call ({} / {})', what,
                key, str(got[key])[:200], str(expected[key])[:200]
            )

    # options shared by searches with other thresholds
    shared = dict(kwargs)
    if shared.get('nelder_mead_kwargs') is not None:
        shared['nelder_mead_kwargs'] = dict(shared['nelder_mead_kwargs'])
    variants = []
    for change in case['others']:
        change = dict(
            change, gap_threshold=case['threshold'] *
            change['gap_threshold'],
            feature_size=case['feature_size'] * (
                change['feature_size'] if dim < 3 else
                max(1., change['feature_size'])
            )
        )
        other = run(
            make_function(func, 'sync', rng), **dict(search_kwargs(case), **change)
        )
        variants.append((dict(shared, **change), container_key(other)))

    def compare_variant(result, key):
        got = container_key(result)
        for name in key:
            require(
                got[name] == key[name], 'with other thresholds: {} changed by '
                'another search', name
            )

    state = {}
    used = set()

    def kind_for(kind):
        if kind == 'slow' and not (independent or case['parallel'] == 1):
            return 'async'
        return kind

    try:
        for context, kind in case['calls']:
            kind = kind_for(kind)
            used.add((context, kind))
            result = call(
                context, make_function(func, kind, rng), kwargs, state
            )
            compare(result, '{} / {}'.format(context, kind))
        for other, key in variants:
            compare_variant(run(make_function(func, 'sync', rng), **other), key)
            compare(
                run(make_function(func, 'sync', rng), **shared),
                'after another search'
            )
        if case['concurrent'] == 'gather':
            async def gather():
                mixed = [
                    run_async(make_function(
                        func, kind_for('slow') if
                        other['num_minimize_parallel'] == 1 else 'async', rng
                    ), **other) for other, _ in variants
                ]
                first = asyncio.ensure_future(run_async(
                    make_function(func, kind_for('slow'), rng), **shared
                ))
                for res, (_, key) in zip(await asyncio.gather(*mixed), variants):
                    compare_variant(res, key)
                compare(await first, 'at the same time as another search')
                return await asyncio.gather(*[
                    run_async(
                        make_function(func, kind_for(kind), rng), **kwargs
                    ) for kind in ['slow', 'async', 'slow']
                ])
            loop = asyncio.new_event_loop()
            try:
                results = loop.run_until_complete(gather())
            finally:
                loop.close()
            for res in results:
                compare(res, 'concurrently in one loop')
        elif case['concurrent'] == 'threads':
            with concurrent.futures.ThreadPoolExecutor(3) as pool:
                futs = [
                    pool.submit(
                        run, make_function(func, kind_for(kind), rng), **kwargs
                    ) for kind in ['sync', 'slow', 'async']
                ]
                for fut in futs:
                    compare(fut.result(), 'concurrently in threads')
    finally:
        if 'loop' in state:
            state['loop'].close()
        asyncio.set_event_loop(None)
    return Report(
        len(reference.minimization_results) > 1 and len(used) > 1,
        sorted('/'.join(u) for u in used)
    )


SUBS = [Sub('calls', cases(), run_case, 320, 10000, shards=16)]
