"""Every kind of object is given to signature_from_callable; canaries notice
calls, modifications and consumption."""
import abc
import asyncio
import builtins
import collections
import contextlib
import copy
import ctypes
import dataclasses
import enum
import functools
import gc
import inspect
import io
import itertools
import operator
import os
import queue
import random
import re
import socket
import string
import sys
import tempfile
import threading
import types
import typing
import unittest.mock
import weakref

from vlib import hostile as untouchable, stdlib

RULE = ('case = object given to signature_from_callable: all attributes of '
        'modules and classes of the importable standard library (callable '
        'or not, raw descriptors included), live objects of the process, '
        'and generated hostile objects (raising attributes, lying '
        'metaclasses, odd names and modules, one-shot iterators, partials '
        'and methods of them); monitors: kind of result / exception, canary '
        'calls, snapshots of the object, its class and module, iterators '
        'still at their start, no import of the claimed module; distinct = '
        '(origin, type, outcome)')
MINIMUM = {'library object': 25000, 'live object': 15000, 'hostile': 3000,
           'signature': 10000, 'TypeError': 10000, 'ValueError': 300,
           'snapshot': 20000, 'canary armed': 1500, 'iterator intact': 200}
LIVE = {'quick': 2500, 'thorough': 40000}
HOSTILE = {'quick': 700, 'thorough': 12000}


class Own(Exception):
    """raised by the objects themselves"""


class Misused(Exception):
    """raised by operations that nobody needs to find a signature"""


# -- snapshots -----------------------------------------------------------
def identity(value):
    return (id(value), type(value).__name__)


def namespace(value):
    """attributes stored in object, without running its code"""
    try:
        return {k: id(v) for k, v in
                object.__getattribute__(value, '__dict__').items()}
    except Exception:
        return None


def class_namespace(cls):
    return {k: id(v) for k, v in type.__dict__['__dict__'].__get__(
            cls).items()}


def snapshot(value):
    result = [type(value)]
    if type in type.__dict__['__mro__'].__get__(type(value)):
        result.append(class_namespace(value))
        result.append(type.__dict__['__bases__'].__get__(value))
        result.append(type.__dict__['__mro__'].__get__(value))
    else:
        result.append(namespace(value))
        result.append(class_namespace(type(value)))
    if type(value) is types.FunctionType:
        result += [value.__code__, value.__defaults__ and
                   tuple(map(id, value.__defaults__)),
                   value.__kwdefaults__ and {
                       k: id(v) for k, v in value.__kwdefaults__.items()},
                   {k: id(v) for k, v in value.__annotations__.items()},
                   value.__name__, value.__qualname__, value.__module__,
                   value.__doc__, value.__type_params__,
                   value.__closure__ and tuple(map(id, value.__closure__))]
    elif type(value) is types.MethodType:
        result += [id(value.__func__), id(value.__self__)]
    elif type(value) is functools.partial:
        result += [id(value.func), tuple(map(id, value.args)),
                   {k: id(v) for k, v in value.keywords.items()}]
    elif type(value) in (list, tuple) and len(value) < 1000:
        result.append(tuple(map(id, value)))
    elif type(value) is dict and len(value) < 1000:
        result.append([(id(k), id(v)) for k, v in value.items()])
    elif type(value) in (set, frozenset, bytearray, collections.deque):
        result.append(len(value))
    return result


def module_names(value):
    name = None
    try:
        name = object.__getattribute__(value, '__module__')
    except Exception:
        pass
    module = sys.modules.get(name) if isinstance(name, str) else None
    return module, module and dict(vars(module))


# -- one object ----------------------------------------------------------
class Monitor16:
    def __init__(self, mon, base):
        self.mon, self.base = mon, base

    def give(self, value, origin, name, *, own=(), full=True):
        mon, base = self.mon, self.base
        before = snapshot(value) if full else None
        try:
            result = base.signature_from_callable(value)
        except (TypeError, ValueError) as error:
            outcome = ('TypeError' if isinstance(error, TypeError)
                       else 'ValueError')
        except own as error:
            outcome = 'own error'
        except RecursionError as error:
            outcome = 'RecursionError'
            mon.violation(f'{origin}:{type(error).__name__}',
                          f'{name}: {error!r:.500}')
        except BaseException as error:
            outcome = type(error).__name__
            if isinstance(error, KeyboardInterrupt):
                raise
            import traceback
            mon.violation(
                    f'{origin}:{outcome}',
                    f'{name} ({type(value).__name__}): {error!r:.300}\n'
                    + ''.join(traceback.format_tb(error.__traceback__)[-4:]))
        else:
            outcome = 'signature'
            mon.expect(type(result) in (base.PlainSignature,
                                        base.OverloadedSignature),
                       f'{origin}:result',
                       lambda: f'{name}: {type(result)}')
        mon.event(outcome)
        mon.case((origin, type(value).__name__, name, outcome),
                 sample=f'{name} ({type(value).__name__}) -> {outcome}')
        if full:
            mon.event('snapshot')
            after = snapshot(value)
            mon.expect(before == after, f'{origin}:modified',
                       lambda: f'{name}: {before} became {after}'[:3000])
        return outcome


# -- objects of the standard library -------------------------------------
def library(giver, shard, shards):
    modules = stdlib.import_all()
    seen, index = set(), 0

    def visit(owner, prefix, root, depth):
        nonlocal index
        for name, value in sorted(vars(owner).items()):
            if not isinstance(name, str):
                continue
            path = f'{prefix}.{name}'
            variants = [value]
            if isinstance(owner, type):
                try:
                    attribute = getattr(owner, name)
                except Exception:
                    pass
                else:
                    if attribute is not value:
                        variants.append(attribute)
            for part in ('fget', 'fset', 'fdel', '__func__', 'func',
                         '__wrapped__'):
                if isinstance(value, (property, staticmethod, classmethod,
                                      functools.cached_property,
                                      types.FunctionType)):
                    function = getattr(value, part, None)
                    if function is not None:
                        variants.append(function)
            for variant in variants:
                if id(variant) in seen:
                    continue
                seen.add(id(variant))
                keep.append(variant)
                index += 1
                if index % shards == shard:
                    giver.mon.event('library object')
                    giver.give(variant, 'library', path,
                               full=not isinstance(variant,
                                                   types.ModuleType))
            if isinstance(value, type) and depth < 4 and (
                    value.__module__ == root.__name__):
                if ('class', value) not in classes:
                    classes.add(('class', value))
                    visit(value, path, root, depth + 1)

    keep, classes = [], set()
    for module in modules:
        visit(module, module.__name__, module, 0)


def live(giver, count, rnd):
    objects = gc.get_objects()
    rnd.shuffle(objects)
    kinds = collections.Counter()
    given = 0
    for value in objects:
        if given >= count:
            break
        kind = type(value)
        kinds[kind] += 1
        if kinds[kind] > max(50, count // 8) or kind.__module__.startswith(
                ('vlib', 'checks')):
            continue
        given += 1
        giver.mon.event('live object')
        giver.give(value, 'live', kind.__qualname__,
                   full=kind.__module__ == 'builtins' and given % 2 == 0)


# -- hostile objects -----------------------------------------------------
NAMES = ['len', 'dict.get', 'str.maketrans', '', '.', '..', 'a..b', '\x00',
         'é', 'x' * 5000, 'object', 'type', 'object.__init__',
         '<lambda>', 'f.<locals>.g', 'OrderedDict', 'partial', 'Generic',
         'NamedTuple.__new__', 'int.from_bytes', '__init__', 'path.join',
         'Popen.__init__', '_T', 'AnyStr', 'Any', 'Optional', 'List',
         'sys.version_info', 'environ', 'maxsize', 'version_info.major',
         'property', 'classmethod', 'None', 'True', 'Ellipsis', 'print.x.y',
         'list.append.__call__', 'super', 'reveal_type', 'function',
         'ellipsis', 'Self', 'TYPE_CHECKING', 'stdin', 'stdin.read']
MODULES = ['builtins', 'os', 'os.path', 'posixpath', 'collections.abc',
           'typing', 'functools', 'sys', '', '.', 'no.such.module', '\x00',
           '__main__', 'paradigm', 'paradigm.base', 'types', 'typeshed',
           '_typeshed', 'x' * 3000, 'string', 'string.', '.string',
           '__specializations', 'canary_module', 'unittest.mock',
           'importlib', 'email.message', 'this', 'antigravity']


def hostile(giver, count, rnd, canary_path):
    mon = giver.mon
    odd = [None, 1, 1.5, b'bytes', (), [], {}, object(), Ellipsis, int,
           untouchable.UNTOUCHABLE, 'text', '', '\ud800', print, Own]

    def canary_function(**changes):
        calls = []

        def function(a, b=1, *args, c, d=2, **kwargs):
            calls.append(1)
            raise Own('called')

        if rnd.random() < .3:
            def function(*args, **kwargs):  # noqa: F811
                calls.append(1)
                raise Own('called')
        function.__name__ = rnd.choice(NAMES).split('.')[-1]
        function.__qualname__ = rnd.choice(NAMES)
        function.__module__ = rnd.choice(MODULES + [
            o for o in odd if o is not untouchable.UNTOUCHABLE])
        for _ in range(rnd.randrange(3)):
            function.__dict__[rnd.choice([
                '__objclass__', '__self__', 'x',
                '__func__', 'func', '__call__', '__overloads__',
                '__class_getitem__', '__get__'])] = rnd.choice(odd)
        if rnd.random() < .1:
            function.__wrapped__ = rnd.choice([function, print, 1, None])
        if rnd.random() < .1:
            function.__signature__ = rnd.choice(
                    [inspect.Signature(), 'text', None, 1, '(a, b)'])
        if rnd.random() < .15:
            function.__annotations__ = {
                'a': rnd.choice(odd + ['no.such', 'a b', '1 +']),
                'return': rnd.choice(odd)}
        if rnd.random() < .1:
            function.__defaults__ = rnd.choice([None, (), (1,), (1, 2)])
        return function, lambda: list(calls)

    def raising_instance():
        names = rnd.sample(['__module__', '__qualname__', '__name__',
                            '__signature__', '__wrapped__', '__self__',
                            '__func__', '__objclass__', '__dict__',
                            '__class__', '__text_signature__', 'func',
                            'args', 'keywords', '__code__'], 3)
        calls = []
        unequal = rnd.random() < .5
        error = rnd.choice([Own, AttributeError, KeyError, RuntimeError,
                            OSError, AssertionError])

        class Hostile:
            def __getattribute__(self, name):
                if name in names:
                    raise error(name)
                return object.__getattribute__(self, name)

            def __call__(self, a, b=1):
                calls.append('call')
                raise Own('called')

            def __iter__(self):
                calls.append('iter')
                raise Misused('iterated')

            def __len__(self):
                calls.append('len')
                raise Misused('measured')

            def __bool__(self):
                calls.append('bool')
                raise Misused('tested')

            def __hash__(self):
                raise Misused('hashed')

            def __eq__(self, other):
                if unequal:
                    raise Misused('compared')
                return NotImplemented

            def __repr__(self):
                return 'Hostile()'

        return Hostile(), lambda: list(calls), (Own, error)

    def hostile_class():
        calls = []

        odd_hash = rnd.random() < .5

        class Meta(type):
            def __call__(cls, *args, **kwargs):
                calls.append('call')
                raise Own('called')

            if rnd.random() < .3:
                def __instancecheck__(cls, instance):
                    calls.append('instancecheck')
                    return rnd.random() < .5

            if rnd.random() < .3:
                def __eq__(cls, other):
                    return NotImplemented

                if rnd.random() < .6:
                    def __hash__(cls):
                        if odd_hash:
                            raise Misused('hashed')
                        return 1

            if rnd.random() < .2:
                def __bool__(cls):
                    raise Misused('tested')

            if rnd.random() < .2:
                def __iter__(cls):
                    calls.append('iter')
                    raise Misused('iterated')

            if rnd.random() < .2:
                def __len__(cls):
                    calls.append('len')
                    raise Misused('measured')

            if rnd.random() < .2:
                def __getattr__(cls, name):
                    raise AttributeError(name)

        bases = rnd.choice([(), (), (int,), (dict,), (Exception,), (list,),
                            (collections.OrderedDict,), (str,),
                            (threading.Thread,), (collections.UserDict,),
                            (io.StringIO,), (tuple,)])
        body = {'__module__': rnd.choice(MODULES[:24]),
                '__qualname__': rnd.choice([n for n in NAMES
                                            if '\x00' not in n])}
        if rnd.random() < .4:
            body['__new__'] = lambda cls, *args, **kw: calls.append('new')
        if rnd.random() < .4:
            body['__init__'] = lambda self, x, y=1: calls.append('init')
        if rnd.random() < .15:
            body['__init__'] = rnd.choice([None, 1, int, print, len,
                                           operator.itemgetter(0)])
        if rnd.random() < .15:
            body['__new__'] = rnd.choice([None, 1, int, print, len,
                                          staticmethod(print)])
        if rnd.random() < .1:
            body['__signature__'] = rnd.choice([inspect.Signature(), 1,
                                                None, 'x'])
        if rnd.random() < .1:
            body['__slots__'] = ()
        meta = Meta if rnd.random() < .7 else type
        try:
            cls = types.new_class(rnd.choice(['C', 'dict', 'len', 'int']),
                                  bases, {'metaclass': meta},
                                  lambda ns: ns.update(body))
        except TypeError:
            cls = types.new_class('C', (), {},
                                  lambda ns: ns.update(body))
        return cls, lambda: [c for c in calls if c != 'instancecheck']

    def bound():
        function, calls = canary_function()
        owner = rnd.choice([1, [], object(), int, Own, type, None, print,
                            sys, (x for x in ()),
                            untouchable.UNTOUCHABLE])
        if owner is None:
            owner = 'text'
        return types.MethodType(function, owner), calls

    def partial():
        value, calls = rnd.choice([canary_function, bound,
                                   hostile_class])()
        for _ in range(rnd.randrange(1, 4)):
            args = rnd.choices(odd, k=rnd.randrange(0, 4))
            kwargs = {rnd.choice('abcdxyz'): rnd.choice(odd)
                      for _ in range(rnd.randrange(0, 4))}
            value = functools.partial(value, *args, **kwargs)
            if rnd.random() < .2:
                value.extra = rnd.choice(odd)
        return value, calls

    def one_shot():
        data = [1, 2, 3]
        consumed = []

        def generator():
            for x in data:
                consumed.append(x)
                yield x

        async def agenerator():
            consumed.append(1)
            yield 1

        async def coroutine():
            consumed.append(1)

        kind = rnd.randrange(7)
        if kind == 0:
            value = generator()
        elif kind == 1:
            value = map(consumed.append, data)
        elif kind == 2:
            value = filter(consumed.append, data)
        elif kind == 3:
            value = itertools.starmap(consumed.append, [(1,), (2,)])
        elif kind == 4:
            value = agenerator()
        elif kind == 5:
            value = coroutine()
        else:
            value = itertools.takewhile(consumed.append, data)
        if rnd.random() < .3:
            value = functools.partial(print, value)
        return value, lambda: list(consumed), value

    def odd_callable():
        class Callable:
            def __call__(self, a, *, b=1):
                raise Own('called')

        target, calls = rnd.choice([canary_function, bound])()
        return rnd.choice([
            lambda: staticmethod(target), lambda: classmethod(target),
            lambda: property(target), lambda: functools.cache(target),
            lambda: functools.lru_cache(3)(target),
            lambda: functools.singledispatch(target)
            if hasattr(target, '__name__') else target,
            lambda: functools.partialmethod(target, 1),
            lambda: functools.cached_property(target),
            lambda: weakref.ref(target) if type(target)
            is types.FunctionType else weakref.WeakMethod(target)
            if False else target,
            lambda: operator.methodcaller('x'),
            lambda: operator.attrgetter('x.y'), lambda: Callable(),
            lambda: contextlib.contextmanager(target)
            if type(target) is types.FunctionType else target,
            lambda: types.MethodType(functools.partial(target), 1),
            lambda: types.MethodType(Callable(), 1),
            lambda: types.MethodType(int, 1),
            lambda: types.MethodType(len, [1]),
            lambda: types.MethodType([].append, 1),
            lambda: types.MethodType(dict.get, {}),
            lambda: types.MethodType(types.MethodType(target, 1), 2),
            lambda: functools.partial(types.MethodType(int, 1)),
            lambda: functools.partial(dict.get, {}),
            lambda: functools.partial(functools.partial),
            lambda: functools.partial(Callable(), b=2),
            lambda: functools.partial(int, 1, 2, 3, 4),
            lambda: functools.partial(dict, *range(9), **{'a': 1}),
            lambda: functools.partial(object, 1),
            lambda: functools.partial(len, nope=1),
        ])(), calls

    makers = [canary_function, canary_function, bound, hostile_class,
              hostile_class, partial, odd_callable]
    for n in range(count):
        choice = rnd.random()
        mon.event('hostile')
        if choice < .1:
            value, calls, own = raising_instance()
            outcome = giver.give(value, 'hostile', 'raising instance',
                                 own=own, full=False)
            mon.event('canary armed')
            mon.expect(not calls(), 'hostile:called',
                       lambda: f'raising instance: {calls()}')
            continue
        if choice < .2:
            value, consumed, held = one_shot()
            giver.give(value, 'hostile', type(value).__name__, full=False)
            mon.event('iterator intact')
            mon.expect(not consumed(), 'hostile:consumed',
                       lambda: f'{type(value).__name__}: {consumed()}')
            if hasattr(value, 'close'):
                with contextlib.suppress(Exception):
                    value.close()
            continue
        maker = rnd.choice(makers)
        value, calls = maker()
        modules = set(sys.modules)
        module, names = module_names(value)
        outcome = giver.give(value, 'hostile', f'{maker.__name__}', own=Own)
        mon.event('canary armed')
        mon.expect(not calls(), 'hostile:called',
                   lambda: f'{maker.__name__} {value!r:.200}: {calls()}')
        if module is not None and module.__name__ not in (
                __name__, '__main__'):
            changed = {k for k in set(names) | set(vars(module))
                       if names.get(k) is not vars(module).get(k)}
            changed = {k for k in changed if not isinstance(
                    vars(module).get(k), types.ModuleType)}
            mon.expect(not changed, 'hostile:module',
                       lambda: f'{module.__name__}: {sorted(changed)[:5]}')
        loaded = {m for m in set(sys.modules) - modules
                  if m in ('canary_module', 'this', 'antigravity')}
        mon.expect(not loaded, 'hostile:imported',
                   lambda: f'{maker.__name__}: {loaded}')
    mon.expect(not os.path.exists(canary_path), 'hostile:imported',
               'canary module was run')


def callables_with_state(giver):
    """stateful callables keep their state"""
    mon = giver.mon
    mock = unittest.mock.Mock()
    giver.give(mock, 'state', 'Mock', full=False)
    mon.event('canary armed')
    mon.expect(not mock.mock_calls and not mock.called, 'state:mock',
               lambda: f'{mock.mock_calls}')
    counter = itertools.count()
    giver.give(counter, 'state', 'count', full=False)
    giver.give(counter.__next__, 'state', 'count.__next__', full=False)
    mon.expect(next(counter) == 0, 'state:consumed', 'itertools.count')
    data = [1, 2, 3]
    for method in ('append', 'pop', 'clear', 'sort', 'reverse',
                   '__setitem__', '__delitem__', '__iadd__'):
        giver.give(getattr(data, method), 'state', f'list.{method}',
                   full=False)
    mon.expect(data == [1, 2, 3], 'state:consumed', f'list {data}')
    mapping = {'a': 1}
    for method in ('pop', 'clear', 'update', 'popitem', 'setdefault'):
        giver.give(getattr(mapping, method), 'state', f'dict.{method}',
                   full=False)
    mon.expect(mapping == {'a': 1}, 'state:consumed', f'dict {mapping}')
    q = queue.Queue()
    q.put(1)
    for name in dir(q):
        with contextlib.suppress(AttributeError):
            giver.give(getattr(q, name), 'state', f'Queue.{name}',
                       full=False)
    mon.expect(q.qsize() == 1, 'state:consumed', 'queue')
    stream = io.StringIO('text')
    for name in dir(stream):
        value = getattr(stream, name)
        giver.give(value, 'state', f'StringIO.{name}', full=False)
    mon.expect(not stream.closed and stream.read() == 'text',
               'state:consumed', 'stream')

    class Model:
        x: int = 1

    @dataclasses.dataclass
    class Data:
        x: int
        y: list = dataclasses.field(default_factory=list)

    class Abstract(abc.ABC):
        @abc.abstractmethod
        def method(self): ...

    class Color(enum.Enum):
        RED = 1

    class Slots:
        __slots__ = ('a',)

    class Proto(typing.Protocol):
        def method(self) -> int: ...

    Row = collections.namedtuple('Row', 'x y')
    NewType = typing.NewType('NewType', int)
    T = typing.TypeVar('T')
    for value in [Model, Data, Abstract, Color, Color.RED, Slots, Slots.a,
                  Proto, Row, Row(1, 2), NewType, T, typing.List[int],
                  list[int], int | str, typing.Optional[int],
                  typing.Callable[[int], str], typing.Generic, typing.Any,
                  typing.Literal[1], Model(), Data(1), Row.x, Row._make,
                  Row(1, 2)._asdict, Data.__init__, Data(1).__eq__,
                  ctypes.c_int, ctypes.pythonapi.Py_IncRef, type(None),
                  type(...), type(NotImplemented), NotImplemented,
                  re.compile('x').match, re.match('x', 'x').group,
                  string.Template('x').substitute, super(Data, Data(1)),
                  super(Data, Data(1)).__init__, memoryview(b'x').tobytes,
                  (lambda: 1).__call__, (1).__add__, int.__add__,
                  object().__str__, type.__call__, int.__call__,
                  type.__dict__['mro'], int.__dict__['from_bytes'],
                  dict.__dict__['fromkeys'], int.real, type.__dict__[
                      '__dict__'], types.SimpleNamespace(__call__=1),
                  types.ModuleType('m'), builtins, copy.copy,
                  asyncio.sleep, asyncio.sleep.__call__, NewType.__call__,
                  weakref.proxy(Model), weakref.ref(Model),
                  socket.socket.send, threading.Lock, threading.Lock(),
                  threading.Lock().acquire, tempfile.mkdtemp, sys.exit,
                  os._exit, os.abort, exit, quit, help, license,
                  breakpoint, input, gc.collect, os.fork, os.kill]:
        try:
            name = getattr(value, '__qualname__', None) or repr(value)[:60]
        except Exception:
            name = object.__repr__(value)
        giver.give(value, 'state', str(name))


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    giver = Monitor16(mon, base)
    scratch = os.path.join(os.environ['VERIF_SCRATCH'], f'path{shard}')
    os.makedirs(scratch)
    witness = os.path.join(scratch, 'witness')
    with open(os.path.join(scratch, 'canary_module.py'), 'w') as f:
        f.write(f'open({witness!r}, "w").close()\n')
    sys.path.append(scratch)
    rnd = random.Random(seed * 1000003 + shard)
    hostile(giver, HOSTILE[tier], rnd, witness)
    callables_with_state(giver)
    library(giver, shard, shards)
    live(giver, LIVE[tier], rnd)
