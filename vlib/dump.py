"""Writes signatures of standard library and user callables as text.

python -m vlib.dump OUT [--seed N] [--shuffle] [--repeat] [--lazy F]
                        [--sample N] [--problems]
"""
import argparse
import functools
import json
import os
import random
import re
import sys
import warnings

# some modules differ if their accelerators / twins are imported before them
FIRST = ['builtins', 're', 'enum', 'collections', 'os', 'json', 'asyncio',
         'decimal', 'datetime', 'io', 'pickle', 'bisect', 'heapq', 'functools',
         'operator', 'threading', 'xml.etree.ElementTree', 'ctypes', 'ssl',
         'sqlite3', 'curses', 'socket', 'struct', 'random', 'string']


def normalized(text):
    return re.sub(r'0x[0-9a-fA-F]+', '0x', text)


def user_callables():
    import decimal
    import io
    import operator
    import threading

    def function(a, /, b: int = 1, *args: str, c, d=None, **kwargs) -> list:
        pass

    class Base:
        def __init__(self, a, b=()):
            pass

        def method(self, x: 'int', *, y=1.5) -> None:
            pass

        @classmethod
        def build(cls, *args):
            pass

        @staticmethod
        def static(a, b):
            pass

    class Derived(Base, dict):
        def __call__(self, z):
            pass

    class Plain:
        pass

    class Exceptional(OSError):
        pass

    class Worker(threading.Thread):
        pass

    def names(value):
        # so results do not depend on function it is defined in
        if isinstance(value, type):
            value.__qualname__ = value.__name__
        return value

    result = {}
    for value in [function, Base, Derived, Plain, Exceptional, Worker]:
        result[value.__name__] = names(value)
    result.update({
        'method': Base.method, 'build': Base.build, 'static': Base.static,
        'bound': Base(1).method, 'built': Base(1).build,
        'derived': Derived({}).method, 'lambda': lambda x, y=2: x,
        'partial': functools.partial(function, 1, c=2),
        'partial of partial': functools.partial(
                functools.partial(function, 1), d=3),
        'partial open': functools.partial(open, 'file'),
        'partial int': functools.partial(int, base=16),
        'partial print': functools.partial(print, sep=''),
        'partial sorted': functools.partial(sorted, [1]),
        'partial max': functools.partial(max, 1),
        'partial itemgetter': functools.partial(operator.itemgetter, 1),
        'partial Decimal': functools.partial(decimal.Decimal, '1'),
        'list.append': [].append, 'dict.get': {}.get,
        'int.__add__': (1).__add__, 'str.join': ''.join,
        'bytes.hex': b''.hex, 'int.from_bytes': int.from_bytes,
        'dict.fromkeys': dict.fromkeys, 'str.maketrans': str.maketrans,
        'StringIO.read': io.StringIO().read,
        'BytesIO.write': io.BytesIO().write,
        'Decimal.sqrt': decimal.Decimal(1).sqrt,
        'Thread.start': threading.Thread().start,
    })
    return {f'user:{name}': value for name, value in result.items()}


def listing(seed, fraction):
    """path -> callable, with only part of modules imported so far"""
    from vlib import stdlib
    names = stdlib.module_names()
    if fraction < 1:
        rnd = random.Random(f'lazy {seed}')
        names = [n for n in names if rnd.random() < fraction]
        rnd.shuffle(names)
    names = FIRST + sorted([n for n in names if n not in FIRST],
                           key=lambda name: name.startswith('_'))
    result = stdlib.walk(stdlib.import_all(names))
    # pure Python twins are told from accelerated classes by luck only
    return {k: v for k, v in result.items() if '_Element_Py' not in k}


def text_of(value, base):
    """(text, signature or None)"""
    try:
        signature = base.signature_from_callable(value)
    except (TypeError, ValueError) as error:
        return f'{type(error).__name__}', None
    except Exception as error:
        return f'UNEXPECTED {type(error).__name__}: {error}'[:300], None
    return normalized(repr(signature)), signature


def sampled(keys, count):
    """the same part of keys in each process"""
    import hashlib
    return sorted(keys, key=lambda key: hashlib.blake2b(
            key.encode('utf-8', 'replace')).digest())[:count]


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('out')
    parser.add_argument('--seed', type=int, default=0)
    parser.add_argument('--shuffle', action='store_true')
    parser.add_argument('--repeat', action='store_true')
    parser.add_argument('--lazy', type=float, default=1)
    parser.add_argument('--sample', type=int, default=0)
    options = parser.parse_args()
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        from paradigm import base
        import paradigm
    if os.environ.get('VERIF_FSIZE'):
        # injected lack of space has ended
        import resource
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,
                                                   resource.RLIM_INFINITY))
    caught = [(w.category.__name__, str(w.message)) for w in caught]
    assert paradigm.__file__.startswith(
            os.environ['VERIF_ROOT'] + os.sep), paradigm.__file__
    warnings.simplefilter('ignore')
    callables = {**listing(options.seed, options.lazy), **user_callables()}
    keys = sorted(callables)
    if options.sample:
        keys = sorted(sampled([k for k in keys if k[:5] != 'user:'],
                              options.sample)
                      + [k for k in keys if k[:5] == 'user:'])
    if options.shuffle:
        random.Random(options.seed).shuffle(keys)
    texts, signatures, problems = {}, {}, {}
    for key in keys:
        texts[key], signatures[key] = text_of(callables[key], base)
    if options.repeat:
        random.Random(-options.seed).shuffle(keys)
        for key in keys:
            text, signature = text_of(callables[key], base)
            if text != texts[key]:
                problems[key] = f'again: {texts[key]} then {text}'
            elif signature is not None and not (
                    signature == signatures[key]
                    and hash(signature) == hash(signatures[key])):
                if signature == signature:
                    # otherwise it has defaults not equal to themselves
                    problems[key] = f'unequal again: {text}'
            elif signature is not None and normalized(
                    repr(signatures[key])) != text:
                problems[key] = f'changed: {text}'
    with open(options.out, 'w') as f:
        json.dump({'texts': texts, 'problems': problems, 'warnings': caught},
                  f)


if __name__ == '__main__':
    main()
