"""Requests are interrupted by exceptions at arbitrary calls; the same and
neighbouring requests are made afterwards."""
import gc
import json
import linecache
import os
import random
import select
import shutil
import signal
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from vlib import dump
from vlib.monitor import Monitor

RULE = ('case = (callable, where and how its first request in a process with '
        'empty evaluation caches was interrupted: exception of some kind '
        'raised by a call made by the package or in it, by a handler of '
        'SIGALRM, or by exhausted stack), followed by requests for the same '
        'callable and for up to 12 neighbours of it in the same or another '
        'thread; compared with the same requests in a sibling process '
        'without interruption: texts of signatures, contents of stub-only '
        'classes in their annotations, equality with repeated request; '
        'interrupted request has to raise what interrupted it or to give '
        'the right result; interrupted import has to succeed when repeated')
MINIMUM = {'interrupted': 1600, 'compared': 16000, 'call': 1200,
           'signal': 40, 'stack': 80, 'import': 30, 'repeated import': 25,
           'other thread': 200, 'places': 150, 'functions': 100,
           'stub-only class': 40, 'import without caches': 16,
           'import without caches interrupted': 3}
SHARDS = {'quick': 8, 'thorough': 32}
SECONDS = {'quick': 60, 'thorough': 420}
LIMIT = 60


COLD = {'quick': 16, 'thorough': 80}
COLD_LIMIT = 180


def drive(ctx):
    root = ctx.warm(ctx.fresh_root('root'))
    return [*ctx.shards(SHARDS[ctx.tier], root=root), cold(ctx, root)]


def cold(ctx, template):
    """imports interrupted while caches are being built"""
    mon = Monitor()
    rnd = random.Random(ctx.seed * 31 + 7)

    def reference(root, name):
        out = ctx.scratch / f'{name}.json'
        code, _, err, _ = ctx.run(
                [ctx.python, '-m', 'vlib.interrupted', out,
                 json.dumps({'method': None, 'attempts': []})],
                env=ctx.env(root), timeout=200)
        return json.loads(out.read_text()) if out.exists() else err[-1500:]

    expected = reference(template, 'expected')
    assert isinstance(expected, dict) and len(expected['final']) > 5, expected

    def interruption(i):
        kind = rnd.choice(COLD_KINDS)
        if i % 2:
            return kind, 'timer', rnd.choice([rnd.uniform(.01, 10),
                                              rnd.uniform(.3, 3)])
        if i % 4 == 2:
            return kind, 'following', 'os.fork', rnd.uniform(.01, 1.2)
        event, most = rnd.choice(EVENTS)
        return kind, 'event', event, rnd.randrange(1, most)

    cases = [{'method': rnd.choice((None, None, 'fork', 'spawn',
                                    'forkserver')) if i % 4 != 2 else None,
              'attempts': [interruption(i + j) for j in
                           range(rnd.choice((1, 1, 2, 3)))]}
             for i in range(COLD[ctx.tier])]

    def run(i):
        root = ctx.fresh_root(f'cold{i}')
        out = ctx.scratch / f'cold{i}.json'
        try:
            code, _, err, _ = ctx.run(
                    [ctx.python, '-W', 'ignore', '-m', 'vlib.interrupted',
                     out, json.dumps(cases[i])],
                    env=ctx.env(root), timeout=COLD_LIMIT)
            report = json.loads(out.read_text()) if out.exists() else None
            # other processes have to cope with what is left on disk
            later = (None if report is None
                     else reference(root, f'later{i}'))
            return code, err, report, later
        finally:
            shutil.rmtree(root, ignore_errors=True)

    with ThreadPoolExecutor(ctx.cpus) as pool:
        for case, (code, err, report, later) in zip(
                cases, pool.map(run, range(len(cases)))):
            label = f'import without caches, {case}'
            mon.case(('cold', json.dumps(case)))
            mon.event('import without caches')
            if report is None:
                mon.violation('cold:hang' if code is None else
                              'cold:no report',
                              f'{label}: exit {code}\n{err[-2000:]}')
                continue
            for kind, result, _ in report['results']:
                raised = not isinstance(result, list)
                mon.event('import without caches interrupted', raised)
                mon.expect(raised or result == expected['final'],
                           'cold:result', lambda: f'{label}: {result}')
            mon.event('compared')
            mon.expect(report['final'] == expected['final'], 'cold:repeated',
                       lambda: f'{label}: repeated import gave '
                               f'{report["final"]}')
            for problem in report['problems']:
                mon.violation('cold:' + problem.split()[0],
                              f'{label}: {problem}')
            mon.expect(isinstance(later, dict)
                       and later['final'] == expected['final'], 'cold:later',
                       lambda: f'{label}: import by another process gave '
                               f'{later}')
    return mon.report()


COLD_KINDS = ['Interruption', 'KeyboardInterrupt', 'KeyboardInterrupt',
              'TimeIsOut', 'MemoryError', 'RecursionError', 'SystemExit']
EVENTS = [('open', 60), ('open', 20), ('import', 80), ('exec', 80),
          ('compile', 5), ('os.fork', 3), ('os.listdir', 10),
          ('marshal.loads', 40), ('os.remove', 3), ('os.rename', 5),
          ('subprocess.Popen', 2), ('sys._getframe', 50)]


class Interruption(BaseException):
    pass


class TimeIsOut(Exception):
    pass


KINDS = [Interruption, KeyboardInterrupt, TimeIsOut, MemoryError,
         RecursionError, SystemExit, GeneratorExit, OSError]


# exceptions between release of lock (e.g. the ones of importlib) and its
# request are not something that can be dealt with
UNTOUCHABLE = ('__enter__', '__exit__', 'acquire', 'release', '__del__',
               'remove', '_get_module_lock', '_lock_unlock_module', 'cb',
               'has_deadlock')


def locking(frame):
    """whether frame is about to take or give back some lock"""
    line = linecache.getline(frame.f_code.co_filename, frame.f_lineno)
    if 'acquire' in line or 'release' in line:
        return True
    while frame is not None:
        if frame.f_code.co_name in UNTOUCHABLE:
            return True
        frame = frame.f_back
    return False


def forked(action, limit=LIMIT):
    """result of action in a child, None if it has died or hangs"""
    reader, writer = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(reader)
            data = json.dumps(action()).encode()
            with os.fdopen(writer, 'wb') as stream:
                stream.write(data)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(writer)
    data, deadline = b'', time.monotonic() + limit
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([reader], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                return 'hang'
            chunk = os.read(reader, 1 << 20)
            if not chunk:
                break
            data += chunk
    finally:
        os.close(reader)
        os.waitpid(pid, 0)
    return json.loads(data) if data else 'death'


def failing(action, package, at, exception, where):
    """calls with exception raised at the start of given call: of function
    from the package or of Python function called by the package"""
    monitoring = sys.monitoring
    tool = monitoring.DEBUGGER_ID
    count = 0

    def callback(code, offset):
        nonlocal count
        caller = sys._getframe(1).f_back
        if (code.co_filename.startswith(package)
                or (caller is not None
                    and caller.f_code.co_filename.startswith(package))):
            if code.co_name in UNTOUCHABLE:
                return
            count += 1
            if at is None:
                where.append((code.co_filename, code.co_firstlineno,
                              code.co_name,
                              caller.f_lineno if caller else 0))
            elif count == at:
                monitoring.set_events(tool, 0)
                raise exception

    monitoring.use_tool_id(tool, 'check')
    monitoring.register_callback(tool, monitoring.events.PY_START, callback)
    monitoring.set_events(tool, monitoring.events.PY_START)
    try:
        return action()
    finally:
        monitoring.set_events(tool, 0)
        monitoring.free_tool_id(tool)


def signalled(action, delay, exception):
    def handler(_, frame):
        if locking(frame):
            signal.setitimer(signal.ITIMER_REAL, 2e-5)
            return
        signal.signal(signal.SIGALRM, signal.SIG_IGN)
        raise exception

    signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, delay)
    try:
        result = action()
        signal.setitimer(signal.ITIMER_REAL, 0)
        return result
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_IGN)


def exhausted(action, left):
    """calls with only some frames left"""
    depth, frame = 0, sys._getframe()
    while frame is not None:
        depth, frame = depth + 1, frame.f_back
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + left)
    try:
        return action()
    finally:
        sys.setrecursionlimit(limit)


def classes_of(annotation, package, seen):
    """stub-only classes of annotation"""
    if id(annotation) in seen:
        return
    seen.add(id(annotation))
    if isinstance(annotation, type):
        if getattr(annotation, '__module__', '').startswith('paradigm.'):
            yield annotation
            for base in annotation.__mro__[1:]:
                yield from classes_of(base, package, seen)
            for value in vars(annotation).get('__annotations__',
                                              {}).values():
                yield from classes_of(value, package, seen)
    elif isinstance(annotation, (list, tuple)):
        for element in annotation:
            yield from classes_of(element, package, seen)
    for attribute in ('__args__', '__constraints__', '__bound__',
                      '__origin__'):
        value = getattr(annotation, attribute, None)
        if value is not None:
            yield from classes_of(value, package, seen)


def facts_of(signature, package):
    """text of contents of stub-only classes"""
    overloads = getattr(signature, 'signatures', [signature])
    result, seen = [], set()
    for overload in overloads:
        for annotation in [*[p.annotation for p in overload.parameters],
                           overload.returns]:
            for value in classes_of(annotation, package, seen):
                result.append(dump.normalized(
                        f'{value.__name__}{value.__bases__}'
                        f'{sorted(vars(value))}'
                        f'{vars(value).get("__annotations__")}'))
    return sorted(result)


def request(value, base, package):
    text, signature = dump.text_of(value, base)
    if signature is None:
        return [text, [], True]
    again = base.signature_from_callable(value)
    return [text, facts_of(signature, package),
            # otherwise it has defaults not equal to themselves
            (again == signature or signature != signature)
            and dump.normalized(repr(again)) == text]


def in_thread(action):
    result = []

    def run():
        try:
            result.append(action())
        except BaseException as error:
            result.append(['raised in thread', [repr(error)], True])

    thread = threading.Thread(target=run, daemon=True)
    thread.start()
    thread.join(LIMIT / 3)
    return result[0] if result else ['no answer in another thread', [], True]


def work(mon, *, tier, seed, shard, shards):
    rnd = random.Random(seed * 6007 + shard)
    package = os.path.join(os.environ['VERIF_ROOT'], 'paradigm')
    start = time.monotonic()
    callables = {**dump.listing(seed, 1), **dump.user_callables()}
    keys = sorted(callables)
    groups = {}
    for key in keys:
        groups.setdefault(key.split('.')[0], []).append(key)
    places_seen, functions = set(), set()
    gc.collect()
    gc.freeze()

    # -- interrupted imports (the package is not imported by now) ---------
    def load():
        for name in [name for name in sys.modules
                     if name.split('.')[0] == 'paradigm']:
            del sys.modules[name]
        import importlib
        return importlib.import_module('paradigm.base')

    chosen = ['builtins.len', 'builtins.dict.get', 'functools.reduce',
              *rnd.sample([k for k in keys if k[:5] != 'user:'], 20)]
    chosen = [key for key in chosen if key in callables]

    def imported():
        where = []
        base = failing(load, package, None, None, where)
        return [where, [request(callables[key], base, package)
                        for key in chosen]]

    answer = forked(imported)
    assert isinstance(answer, list), answer
    places, expected = {}, answer[1]
    for n, place in enumerate(answer[0], start=1):
        places.setdefault(tuple(place), []).append(n)
    count = {'quick': 8, 'thorough': 60}[tier]
    for place in rnd.sample(sorted(places), min(count, len(places))):
        at = rnd.choice(places[place])
        kind = rnd.choice(KINDS)

        def again():
            try:
                failing(load, package, at, kind('injected'), [])
                first = 'imported'
            except BaseException as error:
                first = type(error).__name__
            base = load()
            return [first, [request(callables[key], base, package)
                            for key in chosen]]

        label = f'import interrupted by {kind.__name__} at {place}'
        answer = forked(again)
        mon.event('import')
        mon.case(('import', place, kind.__name__))
        spot = f'{os.path.basename(place[0])}:{place[2]}'
        if not isinstance(answer, list):
            mon.violation(f'import:{answer}', label)
            continue
        mon.event('repeated import')
        for key, wanted, got in zip(chosen, expected, answer[1]):
            mon.event('compared')
            mon.expect(wanted == got, 'import:differs',
                       lambda: f'{label} ({spot}): {key}: expected '
                               f'{wanted}\ngot {got}')

    from paradigm import base

    # -- interrupted requests ---------------------------------------------
    end = start + SECONDS[tier]
    while (time.monotonic() < end
           or (mon.events.get('interrupted', 0) < 250
               and time.monotonic() < end + 200)):
        key = rnd.choice(keys)
        group = groups[key.split('.')[0]]
        # definitions of the same module have much in common
        neighbours = rnd.sample(group, min(8, len(group)))
        neighbours += rnd.sample(keys, 4)

        def rest():
            return [request(callables[other], base, package)
                    for other in [key, *neighbours]]

        def untouched():
            where = []
            begin = time.perf_counter()
            failing(lambda: dump.text_of(callables[key], base), package, None,
                   None, where)
            spent = time.perf_counter() - begin
            return [where, spent, rest()]

        answer = forked(untouched)
        if not isinstance(answer, list):
            mon.violation(f'uninterrupted:{answer}', key)
            continue
        where, spent, expected = answer
        mon.event('stub-only class', sum(len(f) for _, f, _ in expected))
        for other, (text, _, same) in zip([key, *neighbours], expected):
            mon.expect(same, f'unequal:{other}', lambda: text[:2000])
        places = {}
        for n, place in enumerate(where, start=1):
            places.setdefault(tuple(place), []).append(n)
        attempts = [('call', place) for place in
                    rnd.sample(sorted(places), min(8, len(places)))]
        # late ones are the most interesting
        attempts += [('call', tuple(rnd.choice(where[len(where) // 2:])))
                     for _ in range(min(2, len(where)))]
        attempts.append(('stack', rnd.choice([rnd.randrange(8, 40),
                                              rnd.randrange(8, 120)])))
        if rnd.random() < .6:
            attempts.append(('signal', max(rnd.random() * spent, 1e-5)))
        for way, detail in attempts:
            kind = rnd.choice(KINDS)
            threaded = rnd.random() < .2
            at = rnd.choice(places[detail]) if way == 'call' else None

            def ask():
                return base.signature_from_callable(callables[key])

            def interrupted():
                raised = kind('injected')
                try:
                    signature = (
                        failing(ask, package, at, raised, [])
                        if way == 'call'
                        else (signalled(ask, detail, raised)
                              if way == 'signal'
                              else exhausted(ask, detail)))
                    first = dump.normalized(repr(signature))
                except BaseException as error:
                    first = f'{type(error).__name__}'
                    # failed requests may be remembered along with frames
                    kept = error
                return [first, [in_thread(lambda: request(
                        callables[other], base, package))
                                if threaded
                                else request(callables[other], base, package)
                                for other in [key, *neighbours]]]

            answer = forked(interrupted)
            place = (f'{os.path.basename(detail[0])}:{detail[2]} '
                     f'called from {detail[3]}'
                     if way == 'call' else str(detail))
            wanted = 'RecursionError' if way == 'stack' else kind.__name__
            label = (f'{key} interrupted by {wanted} at {way} {place}, '
                     f'later requests in '
                     f'{"another" if threaded else "the same"} thread')
            if not isinstance(answer, list):
                mon.violation(f'{way}:{answer}', label)
                continue
            first, got = answer
            mon.event('interrupted')
            mon.event(way)
            mon.event('other thread', threaded)
            mon.case((key, way, place, wanted))
            if way == 'call':
                places_seen.add(place)
                functions.add(detail[2])
            if first == wanted:
                mon.event(f'raised {wanted}')
            else:
                mon.event('completed')
                mon.expect(first == expected[0][0], f'{way}:result',
                           lambda: f'{label}: result is {first[:1500]} '
                                   f'instead of {expected[0][0][:1500]}')
            for other, before, after in zip([key, *neighbours], expected,
                                            got):
                mon.event('compared')
                mon.expect(before == after, f'{way}:later',
                           lambda: f'{label}: {other} later: expected '
                                   f'{str(before)[:1500]}\n'
                                   f'got {str(after)[:1500]}')
    mon.event('places', len(places_seen))
    mon.event('functions', len(functions))
