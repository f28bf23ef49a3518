"""Imports and uses the package, comparing state of the interpreter.

python -m vlib.state OUT --seed N [--everything] [--requests N]
"""
import argparse
import atexit
import codecs
import csv
import decimal
import faulthandler
import gc
import json
import locale
import multiprocessing
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import types
import warnings


def interpreter():
    """name -> comparable value"""
    mask = os.umask(0)
    os.umask(mask)
    import logging
    result = {
        'working directory': os.getcwd(),
        'environment': sorted(os.environ.items()),
        'umask': mask,
        'sys.path': list(sys.path),
        'sys.argv': list(sys.argv),
        'sys.meta_path': [id(x) for x in sys.meta_path],
        'sys.path_hooks': [id(x) for x in sys.path_hooks],
        'sys.stdout': id(sys.stdout), 'sys.stderr': id(sys.stderr),
        'sys.stdin': id(sys.stdin),
        'sys.excepthook': id(sys.excepthook),
        'sys.displayhook': id(sys.displayhook),
        'sys.unraisablehook': id(sys.unraisablehook),
        'sys.breakpointhook': id(sys.breakpointhook),
        'sys.gettrace': id(sys.gettrace()),
        'sys.getprofile': id(sys.getprofile()),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'digits of integers': sys.get_int_max_str_digits(),
        'dont_write_bytecode': sys.dont_write_bytecode,
        'async generators hooks': str(sys.get_asyncgen_hooks()),
        'audit': None,
        'signal handlers': {
            s: signal.getsignal(s) for s in signal.valid_signals()
            if s not in (signal.SIGKILL, signal.SIGSTOP)},
        'timers': [signal.getitimer(x) for x in
                   (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL,
                    signal.ITIMER_PROF)],
        'warnings filters': [tuple(map(str, f)) for f in warnings.filters],
        'showwarning': id(warnings.showwarning),
        'threads': threading.active_count(),
        'threading.excepthook': id(threading.excepthook),
        'stack size': threading.stack_size(),
        'gc': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        'locale': locale.setlocale(locale.LC_ALL),
        'decimal context': str(decimal.getcontext()),
        'random state': hash(random.getstate()),
        'default timeout': socket.getdefaulttimeout(),
        'logging': (logging.root.level, list(map(id, logging.root.handlers)),
                    logging.root.manager.disable),
        'exit callbacks': atexit._ncallbacks(),
        'resource limits': [resource.getrlimit(getattr(resource, n))
                            for n in sorted(dir(resource))
                            if n.startswith('RLIMIT_')],
        'priority': os.getpriority(os.PRIO_PROCESS, 0),
        'affinity': sorted(os.sched_getaffinity(0)),
        'session': (os.getsid(0), os.getpgid(0)),
        'users': (os.getresuid(), os.getresgid(), os.getgroups()),
        'faulthandler': faulthandler.is_enabled(),
        'tracemalloc': tracemalloc.is_tracing(),
        'origin tracking': sys.get_coroutine_origin_tracking_depth(),
        'monitoring': list(map(sys.monitoring.get_tool, range(6))),
        'start method': multiprocessing.get_start_method(allow_none=True),
        'size of fields': csv.field_size_limit(),
        'time zone': (time.tzname, time.timezone, time.daylight),
        'thread hooks': (str(threading.gettrace()),
                         str(threading.getprofile())),
        'flags': str(sys.flags),
        'bytecode prefix': sys.pycache_prefix,
        'implementation of import': id(__import__),
        'main module': id(sys.modules.get('__main__')),
        'descriptors': sorted(os.listdir('/proc/self/fd')),
    }
    for f in codecs.lookup('utf-8'), codecs.lookup_error('strict'):
        result[f'codecs {f}'] = id(f)
    return {k: str(v) for k, v in result.items()}


def namespaces():
    """contents of loaded modules and their classes, except for
    loaded submodules and caches"""
    result = {}
    for name, module in list(sys.modules.items()):
        if name.split('.')[0] in ('paradigm', 'vlib', 'mypy',
                                  'mypy_extensions', '__main__',
                                  'sitecustomize') or not isinstance(
                module, types.ModuleType):
            continue
        values = {}
        for key, value in list(vars(module).items()):
            if isinstance(value, types.ModuleType):
                continue
            values[key] = id(value)
            if isinstance(value, type) and value.__module__ == name:
                for k, v in list(vars(value).items()):
                    if k in ('__abstractmethods__', '_abc_impl',
                             '__annotations__', '__dict__', '__weakref__',
                             '__doc__', '__subclasshook__', '__match_args__',
                             '__parameters__'):
                        continue
                    values[f'{key}.{k}'] = id(v)
        result[name] = values
    return result


def differences(before, after):
    result = []
    for name, values in before.items():
        now = after.get(name)
        if now is None:
            result.append(f'module {name} is unloaded')
            continue
        lazy = '__getattr__' in now
        for key in values.keys() | now.keys():
            if lazy and (key.split('.')[0] not in values):
                continue
            if values.get(key) != now.get(key):
                result.append(f'{name}.{key}')
    return result


# changed by interpreter itself
VOLATILE = {'sys.last_exc', 'sys.last_value', 'sys.last_type',
            'sys.last_traceback', 'warnings._filters_version',
            'sys.flags', '_imp._'}


def is_volatile(name):
    # ``inspect`` evaluates defaults in namespaces of modules,
    # ``copyreg`` remembers names of slots in classes
    return (name in VOLATILE
            or name.endswith(('.__warningregistry__', '.__builtins__',
                              '.__slotnames__'))
            or name.startswith(('linecache.', 'atexit.', 'tempfile._name_',
                                'tempfile.tempdir')))


class Stream:
    """what consoles of development environments look like"""

    def __init__(self, stream):
        self.stream = stream

    def write(self, text):
        return self.stream.write(text)

    def flush(self):
        self.stream.flush()


def make_unusual(rnd):
    """what users may have changed before, so that restoring of defaults is
    not taken for leaving things alone"""
    import logging

    def hook(*args):
        return previous(*args)

    def either(*actions):
        rnd.choice(actions)()

    previous = sys.excepthook
    either(gc.disable, lambda: gc.set_threshold(501, 7, 7),
           lambda: gc.set_threshold(0))
    os.umask(rnd.choice((0o027, 0o077, 0o002)))
    sys.setswitchinterval(rnd.choice((.001, .02)))
    sys.setrecursionlimit(rnd.choice((1234, 5000)))
    warnings.filterwarnings('always', message='unusual')
    warnings.simplefilter('ignore', BytesWarning)
    signal.signal(signal.SIGUSR1, lambda *_: None)
    signal.signal(signal.SIGINT, rnd.choice((signal.SIG_IGN,
                                             signal.SIG_DFL)))
    signal.signal(signal.SIGTERM, lambda *_: os._exit(7))
    decimal.getcontext().prec = rnd.randrange(3, 20)
    decimal.getcontext().traps[decimal.Inexact] = True
    socket.setdefaulttimeout(rnd.choice((33, .5)))
    logging.disable(rnd.choice((0, logging.CRITICAL)))
    logging.root.setLevel(rnd.choice((logging.DEBUG, logging.ERROR)))
    sys.set_int_max_str_digits(rnd.choice((0, 5000)))
    sys.excepthook = hook
    sys.displayhook = lambda _: None
    sys.unraisablehook = lambda _: None
    threading.excepthook = lambda _: None
    csv.field_size_limit(rnd.randrange(1000, 9999))
    sys.set_coroutine_origin_tracking_depth(2)
    sys.argv = ['some', '--other', 'program']
    sys.path.append('/nonexistent')
    os.environ['UNUSUAL'] = 'yes'
    either(faulthandler.disable, lambda: None)
    if rnd.random() < .5:
        sys.stdout, sys.stderr = Stream(sys.stdout), Stream(sys.stderr)
    elif rnd.random() < .5:
        sys.stdout = sys.stderr = sys.stdin = None
    # as for ``sys.settrace``, Python itself needs minutes to trace code of
    # modules as big as caches
    if rnd.random() < .4:
        sys.setprofile(lambda *_: None)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('out')
    parser.add_argument('--seed', type=int, default=0)
    parser.add_argument('--everything', action='store_true')
    parser.add_argument('--requests', type=int, default=0)
    parser.add_argument('--method')
    parser.add_argument('--unusual', action='store_true')
    options = parser.parse_args()
    from vlib import dump, stdlib
    if options.method:
        import multiprocessing
        multiprocessing.set_start_method(options.method)
    if options.everything:
        stdlib.import_all()
    else:
        stdlib.import_all(dump.FIRST)
    # dependencies, which are not judged
    for name in ('typing_extensions', 'mypy', 'mypy.version', 'inspect',
                 'multiprocessing.connection', 'multiprocessing.context',
                 'compileall', 'importlib.metadata', 'asyncio'):
        __import__(name)
    random.seed(options.seed)
    if options.unusual:
        make_unusual(random.Random(options.seed))
    problems, phases = [], 0

    def compare(label, states, contents):
        now, present = interpreter(), namespaces()
        for key, value in states.items():
            if key == 'descriptors' and options.method in ('spawn',
                                                           'forkserver'):
                # they have servers of their own
                continue
            if now[key] != value:
                problems.append([f'state:{key}', f'{label}: {key} was '
                                 f'{value[:700]} and is {now[key][:700]}'])
        for name in differences(contents, present):
            if not is_volatile(name):
                problems.append([f'module:{name}',
                                 f'{label}: {name} changed'])
        return now, present

    states, contents = interpreter(), namespaces()
    sys.audit('verif.phase', 'import')
    from paradigm import base
    sys.audit('verif.phase', 'own')
    # parsing of stubs needs a helper the first time it is started
    gc.collect()
    states, contents = compare('import', states, contents)
    phases += 1
    counts = 0
    if options.requests:
        callables = {**dump.listing(options.seed,
                                    1 if options.everything else .02),
                     **dump.user_callables()}
        keys = sorted(callables)
        random.Random(options.seed).shuffle(keys)
        random.seed(options.seed)
        keys = keys[:options.requests]
        for start in range(0, len(keys), 500):
            states, contents = interpreter(), namespaces()
            loaded = set(sys.modules)
            sys.audit('verif.phase', 'requests')
            signatures = []
            for key in keys[start:start + 500]:
                try:
                    signatures.append(
                            base.signature_from_callable(callables[key]))
                except (TypeError, ValueError):
                    pass
                counts += 1
            for signature in signatures:
                str(signature), repr(signature), hash(signature)
                signature.all_set(1, key=2)
                signature.expects(1, 2, x=3)
                signature == signatures[0]
                try:
                    signature.bind(1)
                except TypeError:
                    pass
            sys.audit('verif.phase', 'own')
            compare(f'requests {keys[start:start + 3]}...', states,
                    contents)
            phases += 1
    with open(options.out, 'w') as f:
        json.dump({'problems': problems, 'phases': phases,
                   'requests': counts}, f)


if __name__ == '__main__':
    main()
