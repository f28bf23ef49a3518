"""Threads asking for signatures and using shared ones at the same time."""
import importlib
import json
import os
import pickle
import random
import sys
import threading
import time

from vlib import comparison, dump, stdlib
from vlib.monitor import Monitor

RULE = ('case = (callable, text of its signature) obtained by one of 2-12 '
        'threads in a fresh process (empty evaluation caches), requests '
        'aligned by barriers, same or different orders, switch interval '
        'down to 1e-6 s and random delays injected at function calls inside '
        'of the package; compared with a sequential process, and by == '
        'among the threads; then the threads work with shared signatures '
        '(str, repr, hash, ==, bind, all_set, expects, pickle) and results '
        'are compared with sequential ones')
MINIMUM = {'compared': 30000, 'overlapped requests': 5000,
           'delays': 3000, 'shared operation': 100000, 'process': 16,
           'importing threads': 4, 'schedules': 16}
PROCESSES = {'quick': 16, 'thorough': 240}
COUNT = {'quick': 900, 'thorough': 1800}
LIMIT = 200


def drive(ctx):
    mon = Monitor()
    root = ctx.warm(ctx.fresh_root('root'))
    reference, code, err = comparison.dump(ctx, root, 'reference')
    if reference is None:
        error = comparison.failed(mon, 'reference', 'reference', code, err)
        return [mon.report(error)]
    path = ctx.scratch / 'reference.json'
    path.write_text(json.dumps(reference['texts']))
    return [mon.report(), *ctx.shards(PROCESSES[ctx.tier], root=root,
                                      VERIF_REFERENCE=path)]


class Crew:
    """runs an action in several threads, watching for deadlocks"""

    def __init__(self, mon, rnd, package):
        self.mon, self.rnd, self.package = mon, rnd, package

    def run(self, actions, *, delays, label):
        mon = self.mon
        barrier = threading.Barrier(len(actions))
        results = [None] * len(actions)
        injected = [0] * len(actions)
        package = self.package

        def one(i, seed):
            own = random.Random(seed)
            if delays:
                def tracer(frame, event, arg):
                    if (event == 'call'
                            and frame.f_code.co_filename.startswith(package)
                            and own.random() < delays):
                        injected[i] += 1
                        time.sleep(own.choice([0, 0, 0, 1e-5, 1e-3]))

                sys.setprofile(tracer)
            try:
                barrier.wait()
                results[i] = actions[i]()
            except BaseException as error:
                results[i] = error
            finally:
                sys.setprofile(None)

        threads = [threading.Thread(target=one, daemon=True,
                                    args=(i, self.rnd.random()))
                   for i in range(len(actions))]
        for thread in threads:
            thread.start()
        deadline = time.monotonic() + LIMIT
        for thread in threads:
            thread.join(max(0, deadline - time.monotonic()))
        mon.event('delays', sum(injected))
        stuck = [i for i, t in enumerate(threads) if t.is_alive()]
        if stuck:
            frames = sys._current_frames()
            import traceback
            stacks = '\n'.join(
                    ''.join(traceback.format_stack(frames[threads[i].ident]
                                                   )[-6:])
                    for i in stuck[:3] if threads[i].ident in frames)
            mon.violation('deadlock', f'{label}: {len(stuck)} threads of '
                                      f'{len(threads)} are stuck\n{stacks}')
            return None
        for result in results:
            if isinstance(result, BaseException):
                mon.violation(f'raised:{type(result).__name__}',
                              f'{label}: {result!r}')
                return None
        return results


def work(mon, *, tier, seed, shard, shards):
    rnd = random.Random(seed * 7919 + shard)
    with open(os.environ['VERIF_REFERENCE']) as f:
        reference = json.load(f)
    package = os.path.join(os.environ['VERIF_ROOT'], 'paradigm')
    crew = Crew(mon, rnd, package)
    mon.event('process')
    threads_count = rnd.choice([2, 3, 4, 6, 8, 12])
    delays = [0, .02, 0, .2][shard % 4]
    interval = rnd.choice([1e-6, 1e-5, 1e-4])
    same_order = shard % 2 == 0
    sys.setswitchinterval(interval)
    label = (f'{threads_count} threads, delays {delays}, '
             f'interval {interval}, same order {same_order}')
    mon.event('schedules')

    if shard % 3 == 0:
        # first import of modules of the package in several threads
        for name in [name for name in sys.modules
                     if name.split('.')[0] == 'paradigm']:
            del sys.modules[name]

        def load():
            return importlib.import_module('paradigm.base')

        bases = crew.run([load] * threads_count, delays=0,
                         label=f'import: {label}')
        if bases is None:
            return
        mon.event('importing threads', threads_count)
        mon.expect(len(set(map(id, bases))) == 1, 'import', 'several modules')
    from paradigm import base

    callables = {**dump.listing(seed, 1), **dump.user_callables()}
    keys = sorted(callables)
    # neighbours share classes and modules, so share evaluation
    # of their definitions
    count = COUNT[tier]
    chosen = set()
    while len(chosen) < count:
        start = rnd.randrange(len(keys))
        chosen.update(keys[start:start + 30])
    keys = sorted(chosen)
    rnd.shuffle(keys)
    flight = [None] * threads_count
    overlapped = [0] * threads_count

    def asker(i):
        own = list(keys)
        if not same_order:
            random.Random(seed * 31 + shard * 17 + i).shuffle(own)

        def ask():
            result = {}
            for key in own:
                flight[i] = key
                try:
                    result[key] = dump.text_of(callables[key], base)
                finally:
                    if any(other is not None
                           for j, other in enumerate(flight) if j != i):
                        overlapped[i] += 1
                    flight[i] = None
            return result

        return ask

    results = crew.run(list(map(asker, range(threads_count))), delays=delays,
                       label=f'requests: {label}')
    if results is None:
        return
    mon.event('overlapped requests', sum(overlapped))
    shared = {}
    for key in keys:
        expected = reference.get(key)
        first = results[0][key][1]
        for result in results:
            text, signature = result[key]
            mon.case((key, text))
            if expected is not None:
                mon.event('compared')
                mon.expect(text == expected, f'differs:{key}',
                           lambda: f'{label}: {key}: expected '
                                   f'{expected[:1500]}\ngot {text[:1500]}')
            if signature is not None and first is not None:
                mon.expect((signature == first) == (first == first),
                           f'unequal:{key}',
                           lambda: f'{label}: {key}: {text[:1500]}')
        if first is not None:
            shared[key] = first

    # -- shared signatures ----------------------------------------------
    items = sorted(shared)
    rnd.shuffle(items)
    items = items[:count // 3]

    def operations(key, other):
        signature, right = shared[key], shared[other]
        yield 'str', lambda: dump.normalized(str(signature))
        yield 'repr', lambda: dump.normalized(repr(signature))
        yield 'hash', lambda: hash(signature)
        yield '==', lambda: signature == right
        yield 'self ==', lambda: signature == signature
        for args, kwargs in [((), {}), ((1,), {}), ((1, 2), {}),
                             ((1,), {'sep': 2}), ((), {'a': 1, 'key': 2})]:
            yield f'all_set {args}', lambda: signature.all_set(
                    *args, **kwargs)
            yield f'expects {args}', lambda: signature.expects(
                    *args, **kwargs)
            yield f'bind {args}', lambda: dump.normalized(repr(
                    signature.bind(*args, **kwargs)))
        yield 'pickle', lambda: pickled(signature)

    def pickled(signature):
        return dump.normalized(repr(pickle.loads(pickle.dumps(signature))))

    def outcome(action):
        try:
            return action()
        except (TypeError, ValueError, AttributeError,
                pickle.PicklingError) as error:
            return type(error).__name__

    expected = {}

    def user(i, *, into=None):
        def use():
            result = {}
            for n, key in enumerate(items):
                for name, action in operations(key, items[n - 1]):
                    result[key, name] = outcome(action)
            return result

        return use

    results = crew.run([user(i) for i in range(min(threads_count, 6))],
                       delays=delays / 10, label=f'shared: {label}')
    if results is None:
        return
    expected = user(-1)()
    for result in results:
        mon.event('shared operation', len(result))
        for (key, name), value in result.items():
            mon.expect(value == expected[key, name],
                       f'operation:{name.split()[0]}',
                       lambda: f'{label}: {name} of {key}: {value} '
                               f'instead of {expected[key, name]}')
