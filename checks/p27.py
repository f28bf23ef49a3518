"""Processes are forked while threads make requests; both sides have to go on
as if nothing has happened."""
import gc
import json
import multiprocessing
import os
import random
import select
import signal
import sys
import threading
import time

from checks.p25 import facts_of, forked
from vlib import dump

RULE = ('case = (how a process was forked, what its threads were doing in '
        'the package at that moment, callable): 1-6 threads of a process '
        'with empty evaluation caches ask for signatures of neighbouring '
        'callables, with random delays injected at calls inside of the '
        'package, while another thread - the main one or not - forks '
        'children (os.fork, multiprocessing) at random moments; children, '
        'their children and the parent itself then ask for the same '
        'callables; compared with a process that never forked: texts, '
        'contents of stub-only classes, equality with repeated request; '
        'a watchdog turns a hang into a violation')
MINIMUM = {'fork': 400, 'in flight': 200, 'evaluating': 40,
           'compared in child': 8000, 'compared in parent': 3000,
           'grandchild': 30, 'by another thread': 60,
           'by multiprocessing': 40, 'places': 40}
SHARDS = {'quick': 8, 'thorough': 32}
SECONDS = {'quick': 45, 'thorough': 400}
LIMIT = 30


def drive(ctx):
    root = ctx.warm(ctx.fresh_root('root'))
    return ctx.shards(SHARDS[ctx.tier], root=root)


def spawned(action):
    """same as ``forked``, but by ``multiprocessing``"""
    reader, writer = os.pipe()

    def run():
        data = json.dumps(action()).encode()
        with os.fdopen(os.dup(writer), 'wb') as stream:
            stream.write(data)

    process = multiprocessing.get_context('fork').Process(target=run,
                                                          daemon=True)
    process.start()
    os.close(writer)
    data, deadline = b'', time.monotonic() + LIMIT
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([reader], [], [], left)[0]:
                os.kill(process.pid, signal.SIGKILL)
                return 'hang'
            chunk = os.read(reader, 1 << 20)
            if not chunk:
                break
            data += chunk
    finally:
        os.close(reader)
        process.join()
    return json.loads(data) if data else 'death'


def request(value, base, package):
    text, signature = dump.text_of(value, base)
    if signature is None:
        return [text, [], True]
    again = base.signature_from_callable(value)
    return [text, facts_of(signature, package),
            # otherwise it has defaults not equal to themselves
            (again == signature or signature != signature)
            and dump.normalized(repr(again)) == text]


def whereabouts(package):
    """what other threads do in the package"""
    result = []
    own = threading.get_ident()
    for ident, frame in sys._current_frames().items():
        if ident == own:
            continue
        while frame is not None:
            code = frame.f_code
            if code.co_filename.startswith(package):
                result.append(f'{os.path.basename(code.co_filename)}:'
                              f'{code.co_name}:{frame.f_lineno}')
                break
            frame = frame.f_back
    return result


def evaluating(package):
    own = threading.get_ident()
    for ident, frame in sys._current_frames().items():
        if ident == own:
            continue
        while frame is not None:
            if (frame.f_code.co_filename.startswith(package)
                    and frame.f_code.co_name == 'evaluate_qualified_path'):
                return True
            frame = frame.f_back
    return False


def host(base, package, callables, groups, seed):
    """process whose threads make requests while it forks"""
    rnd = random.Random(seed)
    sys.setswitchinterval(rnd.choice([1e-6, 1e-5, 1e-4]))
    delays = rnd.choice([0, .02, .1, .1])
    stopped = threading.Event()
    answers, lock = [], threading.Lock()

    def ask(keys, seed):
        own = random.Random(seed)

        def tracer(frame, event, arg):
            if (event == 'call'
                    and frame.f_code.co_filename.startswith(package)
                    and own.random() < delays and not stopped.is_set()):
                time.sleep(own.choice([0, 1e-5, 1e-3, 2e-3]))

        if delays:
            sys.setprofile(tracer)
        for key in keys:
            answer = request(callables[key], base, package)
            with lock:
                answers.append([key, answer])

    count = rnd.randrange(1, 7)
    own = [list(groups[i % len(groups)]) for i in range(count)]
    for keys in own:
        rnd.shuffle(keys)
    asked = sorted({key for keys in own for key in keys})
    threads = [threading.Thread(target=ask, args=(keys, rnd.random()),
                                daemon=True)
               for keys in own]
    forks = []

    def fork():
        for n in range(rnd.randrange(3, 7)):
            time.sleep(rnd.choice([0, 1e-4, 1e-3, 5e-3, 2e-2]))
            where, busy = whereabouts(package), evaluating(package)
            order = asked[:]
            rnd.shuffle(order)
            nested = rnd.random() < .15

            def child():
                sys.setprofile(None)
                if nested:
                    return forked(grandchild, LIMIT * 2 // 3)
                return [[key, request(callables[key], base, package)]
                        for key in order]

            def grandchild():
                return [[key, request(callables[key], base, package)]
                        for key in order]

            way = rnd.choice(['os', 'os', 'multiprocessing'])
            result = (forked(child, LIMIT) if way == 'os'
                      else spawned(child))
            forks.append([way, nested, where, busy, result])
            if isinstance(result, str):
                break
            if not any(thread.is_alive() for thread in threads):
                break

    for thread in threads:
        thread.start()
    another = rnd.random() < .3
    if another:
        forker = threading.Thread(target=fork, daemon=True)
        forker.start()
        forker.join(5 * LIMIT)
    else:
        fork()
    stopped.set()
    deadline = time.monotonic() + LIMIT
    for thread in threads:
        thread.join(max(0, deadline - time.monotonic()))
    stuck = sum(thread.is_alive() for thread in threads)
    return [another, forks, answers, stuck]


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    rnd = random.Random(seed * 6101 + shard)
    package = os.path.join(os.environ['VERIF_ROOT'], 'paradigm')
    start = time.monotonic()
    callables = {**dump.listing(seed, 1), **dump.user_callables()}
    modules = {}
    for key in sorted(callables):
        modules.setdefault(key.split('.')[0], []).append(key)
    names = sorted(modules)
    places = set()
    gc.collect()
    gc.freeze()
    end = start + SECONDS[tier]
    hung = 0
    while hung < 3 and (
            time.monotonic() < end
            or (mon.events.get('fork', 0) < 60
                and time.monotonic() < end + 200)):
        groups = []
        for name in rnd.sample(names, rnd.randrange(1, 4)):
            keys = modules[name]
            at = rnd.randrange(len(keys))
            groups.append(keys[at:at + rnd.randrange(5, 30)])
        asked = sorted({key for keys in groups for key in keys})

        def untouched():
            return [[key, request(callables[key], base, package)]
                    for key in asked]

        answer = forked(untouched)
        if not isinstance(answer, list):
            mon.violation(f'untouched:{answer}', str(groups))
            continue
        expected = dict(answer)
        own = rnd.random()
        answer = forked(lambda: host(base, package, callables, groups, own),
                        8 * LIMIT)
        label = f'{len(groups)} groups with {asked[0]}, seed {own}'
        if not isinstance(answer, list):
            mon.violation(f'parent:{answer}', label)
            continue
        another, forks, answers, stuck = answer
        mon.expect(not stuck, 'parent:stuck',
                   lambda: f'{label}: {stuck} threads are stuck')
        for key, got in answers:
            mon.event('compared in parent')
            mon.expect(got == expected[key], 'parent:differs',
                       lambda: f'{label}: {key}: expected '
                               f'{str(expected[key])[:1500]}\n'
                               f'got {str(got)[:1500]}')
        for way, nested, where, busy, result in forks:
            mon.event('fork')
            mon.event('in flight', bool(where))
            mon.event('evaluating', busy)
            mon.event('grandchild', nested)
            mon.event('by another thread', another)
            mon.event('by multiprocessing', way == 'multiprocessing')
            places.update(where)
            story = (f'{label}: forked by {way} in '
                     f'{"another" if another else "main"} thread'
                     f'{" twice" if nested else ""}, threads are at {where}')
            if not isinstance(result, list):
                mon.violation(f'child:{result}', story)
                hung += 1
                continue
            for key, got in result:
                mon.event('compared in child')
                mon.case((way, nested, tuple(where), key))
                mon.expect(got == expected[key], 'child:differs',
                           lambda: f'{story}: {key}: expected '
                                   f'{str(expected[key])[:1500]}\n'
                                   f'got {str(got)[:1500]}')
    mon.event('places', len(places))
