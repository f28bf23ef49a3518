"""Imports the package without caches, being interrupted.

python -m vlib.interrupted OUT CONFIG
"""
import gc
import json
import multiprocessing
import os
import signal
import sys
import threading
import time

CALLABLES = (len, dict, sorted, int, print, open, json.dumps, os.walk,
             threading.Thread, gc.collect)


class Interruption(BaseException):
    pass


class TimeIsOut(Exception):
    pass


KINDS = {k.__name__: k for k in (Interruption, KeyboardInterrupt, TimeIsOut,
                                 MemoryError, RecursionError, SystemExit)}
UNTOUCHABLE = {'__enter__', '__exit__', 'acquire', 'release', '__del__',
               'remove', '_get_module_lock', '_lock_unlock_module', 'cb',
               'has_deadlock', '_launch', 'start', 'spawnv_passfds'}
active = None


def injected(kind, event, at):
    """makes given audit event of given number fail"""
    state = {'count': 0}

    def hook(name, _):
        if active is not state or os.getpid() != state['pid'] \
                or name != event:
            return
        state['count'] += 1
        if state['count'] == at:
            state['done'] = True
            raise kind('injected')

    sys.addaudithook(hook)
    state['pid'] = os.getpid()
    return state


def timed(kind, delay):
    def handler(_, frame):
        while frame is not None:
            if frame.f_code.co_name in UNTOUCHABLE:
                signal.setitimer(signal.ITIMER_REAL, 1e-3)
                return
            frame = frame.f_back
        raise kind('injected')

    signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, delay)


def following(kind, event, delay):
    """fails some time after given audit event has happened"""
    state = {'pid': os.getpid()}

    def hook(name, _):
        if active is state and os.getpid() == state['pid'] and name == event:
            timed(kind, delay)

    sys.addaudithook(hook)
    return state


def snapshot():
    return {'main': id(sys.modules.get('__main__')),
            'start method': multiprocessing.get_start_method(allow_none=True),
            'directory': os.getcwd(), 'path': list(sys.path),
            'environment': sorted(os.environ.items()),
            'threads': threading.active_count(),
            'handler': str(signal.getsignal(signal.SIGINT)),
            'stdout': id(sys.stdout)}


def attempt():
    # the way users do it
    try:
        import paradigm.base as base
    except BaseException as error:
        return f'{type(error).__name__}: {error}'[:500]
    return [repr(base.signature_from_callable(v)) for v in CALLABLES]


def main():
    global active
    out, config = sys.argv[1], json.loads(sys.argv[2])
    if config['method']:
        multiprocessing.set_start_method(config['method'])
    before = snapshot()
    # signals ending after the import are none of its business
    signal.signal(signal.SIGALRM, signal.SIG_IGN)
    results, problems = [], []
    for kind, way, *detail in config['attempts']:
        kind = KINDS[kind]
        begin = time.monotonic()
        result = None
        try:
            if way == 'timer':
                timed(kind, *detail)
            elif way == 'following':
                active = following(kind, *detail)
            else:
                active = injected(kind, *detail)
            result = attempt()
        except BaseException as error:
            result = f'{type(error).__name__}: {error}'
        finally:
            active = None
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_IGN)
        results.append([kind.__name__, result, time.monotonic() - begin])
        now = snapshot()
        problems += [f'{k} was {before[k]} and is {now[k]} after '
                     f'{[kind.__name__, way, *detail]}'
                     for k in before if before[k] != now[k]]
    final = attempt()
    now = snapshot()
    problems += [f'{k} was {before[k]} and is {now[k]} at the end'
                 for k in before if before[k] != now[k]]
    deadline = time.monotonic() + 60
    while multiprocessing.active_children() and time.monotonic() < deadline:
        time.sleep(.05)
    problems += [f'{p} is left' for p in multiprocessing.active_children()]
    with open(out, 'w') as f:
        json.dump({'results': results, 'final': final,
                   'problems': problems}, f)


if __name__ == '__main__':
    main()
