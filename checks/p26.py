"""What has been used is let go: objects of users are collected, nothing
accumulates."""
import abc
import collections
import copy
import dataclasses
import enum
import functools
import gc
import os
import pickle
import random
import sys
import threading
import types
import typing
import weakref

from vlib import dump, gen, usercode, values

RULE = ('case = (scenario, what was done with the callable and its '
        'signatures) where each object of users involved - functions, '
        'classes, instances, defaults, annotations, arguments of calls and '
        'of partial objects, modules - has a weak reference, and has to be '
        'gone when everything is dropped and garbage collected (as it is in '
        'a control run without the library); and rounds of requests for '
        'standard library callables, failing requests and operations with '
        'signatures, after which numbers of objects by type, memory blocks, '
        'threads and descriptors must not grow from round to round')
MINIMUM = {'reference': 20000, 'scenario': 4000, 'requested': 6000,
           'used': 4000, 'round': 24, 'rounds of requests': 8,
           'rounds of operations': 8, 'module': 30}
SCENARIOS = {'quick': 900, 'thorough': 12000}
MODULES = {'quick': 10, 'thorough': 100}
ROUNDS = {'quick': 4, 'thorough': 12}


def drive(ctx):
    root = ctx.warm(ctx.fresh_root('root'))
    return ctx.shards({'quick': 8, 'thorough': 16}[ctx.tier], root=root)


class Marker:
    """object that can be watched"""

    def __init__(self, name='marker'):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'


class Watch:
    def __init__(self):
        self.references = []

    def __call__(self, value, label):
        self.references.append((label, weakref.ref(value)))
        return value

    def alive(self):
        return [label for label, reference in self.references
                if reference() is not None]


def forget():
    """clears caches of Python itself, e.g. of ``inspect`` and ``typing``"""
    if not CACHES:
        gc.collect()
        CACHES.extend(value for value in gc.get_objects()
                      if type(value) is functools._lru_cache_wrapper
                      and not str(getattr(value, '__module__', '')
                                  ).startswith('paradigm'))
    for cache in CACHES:
        cache.cache_clear()
    gc.collect()


CACHES = []


# -- scenarios -----------------------------------------------------------
def function_(rnd, watch):
    default, other = (watch(Marker(), 'default'),
                      watch(Marker(), 'keyword default'))
    annotation = watch(type('Annotation', (), {}), 'annotation')
    captured = watch(Marker(), 'captured')
    source = gen.source(gen.random_list(rnd, max_length=5), defaults='D')
    namespace = {'D': default}
    exec(source if source.endswith(('pass', '\n')) else source, namespace)

    def plain(a, b: annotation = default, *args, c=other,
              **kwargs) -> annotation:
        return captured

    style = rnd.randrange(5)
    result = (plain if style < 3 else
              (lambda x, y=default: captured) if style == 3
              else namespace['f'])
    if rnd.random() < .3:
        result.extra = watch(Marker(), 'attribute of function')
    if rnd.random() < .2:
        result.__module__ = rnd.choice(['builtins', 'json', 'no_such', 'os'])
        result.__name__ = result.__qualname__ = rnd.choice(
                ['len', 'dumps', 'print', 'nothing', 'path'])
    if rnd.random() < .4:
        # what signature consists of refers to what it is of
        rnd.choice([default, other, annotation]).owner = result
    return watch(result, 'function')


def wrapped(rnd, watch):
    inner = function_(rnd, watch)

    @functools.wraps(inner)
    def wrapper(*args, **kwargs):
        return inner(*args, **kwargs)

    return watch(wrapper, 'wrapper')


class Meta(type):
    def __call__(cls, *args, **kwargs):
        return super().__call__(*args, **kwargs)


BASES = [(), (), (dict,), (OSError,), (threading.Thread,), (abc.ABC,),
         (collections.OrderedDict,), (int,), (tuple,), (str,),
         (collections.UserDict,), (typing.Generic[typing.TypeVar('T')],),
         (dict, threading.Thread), (enum.Enum,)]


def class_(rnd, watch):
    default = watch(Marker(), 'default of method')
    bases = rnd.choice(BASES)
    namespace = {}
    for name in rnd.sample(['__init__', '__new__', '__call__', 'method',
                            'get', 'run', '__repr__'], rnd.randrange(4)):
        if name == '__new__':
            def method(cls, *args, **kwargs):
                pass
        elif rnd.random() < .5:
            def method(self, a=default, *args, **kwargs):
                pass
        else:
            def method(self, *args, key=default):
                pass
        namespace[name] = watch(method, f'function {name}')
    for name, wrap in (('build', classmethod), ('static', staticmethod)):
        if rnd.random() < .5:
            def method(first, second=default):
                pass
            namespace[name] = wrap(watch(method, f'function {name}'))
    if bases == (enum.Enum,):
        namespace = {}
    metaclass = (Meta if rnd.random() < .15 and not any(
            type(base) is not type for base in bases) else None)
    result = types.new_class('User' + str(rnd.randrange(3)), bases,
                             {'metaclass': metaclass} if metaclass else {},
                             lambda ns: ns.update(namespace))
    if rnd.random() < .3:
        result.__qualname__ = result.__name__
    if rnd.random() < .2:
        result = types.new_class('Child', (result,)) if (
                bases != (enum.Enum,)) else result
    if rnd.random() < .4:
        default.owner = result
    return watch(result, 'class')


def dataclass_(rnd, watch):
    annotation = watch(type('Annotation', (), {}), 'annotation')
    return watch(dataclasses.make_dataclass(
            'Data', [('a', annotation), ('b', int, watch(Marker(), 'd'))]),
            'dataclass')


def named_tuple(rnd, watch):
    return watch(collections.namedtuple('Named', 'a b', defaults=[
        watch(Marker(), 'default')]), 'named tuple')


def instance(rnd, watch):
    for _ in range(5):
        cls = class_(rnd, watch)
        try:
            value = cls.__new__(cls)
            return watch(value, 'instance')
        except Exception:
            continue
    return function_(rnd, watch)


def method(rnd, watch):
    value = instance(rnd, watch)
    names = [name for name in ('method', 'get', 'run', 'build', 'static',
                               '__repr__', '__init__', '__eq__', 'join',
                               'keys', 'update', '__call__', '__reduce__')
             if callable(getattr(value, name, None))]
    return getattr(value, rnd.choice(names)) if names else value


def partial(rnd, watch):
    value = rnd.choice(FACTORIES)(rnd, watch)
    for _ in range(3):
        try:
            return watch(functools.partial(
                    value, *[watch(Marker(), 'partial argument')
                             for _ in range(rnd.randrange(3))],
                    **{name: watch(Marker(), 'partial keyword')
                       for name in rnd.sample(['a', 'b', 'c', 'key', 'zz'],
                                              rnd.randrange(3))}), 'partial')
        except TypeError:
            value = function_(rnd, watch)


def library(rnd, watch):
    """partials and methods of library's callables keep user's objects"""
    marker = watch(Marker(), 'argument')
    holder = watch(type('Holder', (list,), {}), 'class')([marker])
    return rnd.choice([
        lambda: functools.partial(print, marker, sep=marker),
        lambda: functools.partial(max, key=marker),
        lambda: functools.partial(dict.get, {}, marker),
        lambda: holder.append, lambda: holder.sort, lambda: holder.__len__,
        lambda: functools.partial(sorted, holder),
        lambda: {1: marker}.get, lambda: (marker,).index,
        lambda: functools.partialmethod(max, marker).__get__(holder, list),
        lambda: functools.partial(functools.reduce, initial=marker),
        lambda: types.MethodType(len, holder),
        lambda: types.MethodType(watch(Marker(), 'no function'), holder)
        if callable(marker) else holder.copy,
        lambda: functools.lru_cache(maxsize=2)(lambda x, m=marker: m),
    ])()


def not_callable(rnd, watch):
    return watch(rnd.choice([Marker, type('Odd', (list,), {})])(),
                 'not callable')


FACTORIES = [function_, function_, wrapped, class_, class_, dataclass_,
             named_tuple, instance, method, method, partial, library,
             not_callable]


def calls(rnd, watch):
    for _ in range(rnd.randrange(1, 4)):
        yield ([watch(Marker(), 'argument of call')
                for _ in range(rnd.randrange(4))],
               {name: watch(Marker(), 'keyword argument of call')
                for name in rnd.sample(['a', 'b', 'c', 'key', 'second',
                                        'zz'], rnd.randrange(3))})


def use(signature, rnd, watch, mon):
    """everything that signatures are for"""
    results = [signature]
    for args, kwargs in calls(rnd, watch):
        results.append(signature.expects(*args, **kwargs))
        results.append(signature.all_set(*args, **kwargs))
        try:
            results.append(signature.bind(*args, **kwargs))
        except (TypeError, ValueError):
            pass
    for value in results:
        str(value), repr(value), value == signature, value != 1
        try:
            hash(value), {value: 1}
        except TypeError:
            pass
    copy.copy(signature) == signature
    try:
        pickle.loads(pickle.dumps(signature))
    except Exception:
        # user's classes cannot be pickled
        pass
    mon.event('used')


def scenario(mon, base, factory, seed, *, requested):
    rnd = random.Random(seed)
    watch = Watch()
    value = factory(rnd, watch)
    outcome = 'none'
    if requested:
        for _ in range(rnd.randrange(1, 3)):
            try:
                signature = base.signature_from_callable(value)
            except (TypeError, ValueError) as error:
                outcome = type(error).__name__
            else:
                outcome = 'signature'
                if rnd.random() < .7:
                    use(signature, rnd, watch, mon)
                del signature
            mon.event('requested')
    return watch, outcome


def constructed(mon, base, seed, *, requested):
    """signatures built by hand"""
    rnd = random.Random(seed)
    watch = Watch()
    kinds = base.ParameterKind
    parameters = [
        base.OptionalParameter(
                annotation=watch(type('Annotation', (), {}), 'annotation'),
                default=watch(Marker(), 'default'), name=name,
                kind=kinds.POSITIONAL_OR_KEYWORD)
        for name in rnd.sample(['a', 'b', 'c'], rnd.randrange(1, 4))]
    if requested:
        first = base.PlainSignature(*parameters, returns=watch(
                type('Annotation', (), {}), 'returns'))
        second = base.PlainSignature(*parameters[:-1], returns=int)
        for signature in (first, base.OverloadedSignature(first, second)):
            use(signature, rnd, watch, mon)
        first == second, parameters[0] == parameters[-1]
        hash(parameters[0]), repr(parameters)
    return watch, 'constructed'


# -- growth --------------------------------------------------------------
def census():
    for _ in range(3):
        gc.collect()
    counts = collections.Counter(
            f'{type(value).__module__}.{type(value).__qualname__}'
            for value in gc.get_objects())
    return counts, sys.getallocatedblocks()


def resources():
    return threading.active_count(), len(os.listdir('/proc/self/fd'))


def growth(mon, label, action, rounds, limit):
    """numbers must not grow from round to round"""
    limit = max(limit, 20)
    # caches of the library itself and of Python are filled by first ones
    for _ in range(2):
        action()
    before, blocks = census()
    held = resources()
    history, final = [], None
    for _ in range(rounds):
        action()
        mon.event('round')
        final = None
        now, used = census()
        history.append((sum(now.values()) - sum(before.values()),
                        used - blocks))
        # census itself must not grow
        final, now = now, None
    mon.event(f'rounds of {label}', rounds)
    per_round = (history[-1][0] - history[0][0]) / (rounds - 1)
    mon.case((label, tuple(h[0] for h in history)),
             sample=f'{label}: {history}')
    steady = all(b[0] > a[0] for a, b in zip(history, history[1:]))
    grown = (final - before).most_common(5)
    mon.expect(not (steady and per_round > limit), f'objects:{label}',
               lambda: f'{per_round} objects per round of {label}: {grown}, '
                       f'{history}')
    per_round = (history[-1][1] - history[0][1]) / (rounds - 1)
    steady = all(b[1] > a[1] for a, b in zip(history, history[1:]))
    mon.expect(not (steady and per_round > 2 * limit), f'blocks:{label}',
               lambda: f'{per_round} blocks per round of {label}: {grown}, '
                       f'{history}')
    mon.expect(resources() == held, f'resources:{label}',
               lambda: f'{held} threads and descriptors, then {resources()}')


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    rnd = random.Random(seed * 9001 + shard)

    # -- objects of users ------------------------------------------------
    for n in range(SCENARIOS[tier]):
        own = rnd.random()
        if rnd.random() < .1:
            factory, run = constructed, constructed
        else:
            factory = rnd.choice(FACTORIES)
            run = functools.partial(_scenario, factory=factory)
        control, _ = run(mon, base, own, requested=False)
        watch, outcome = run(mon, base, own, requested=True)
        alive = watch.alive()
        if alive:
            gc.collect()
            alive = watch.alive()
            if alive:
                forget()
                alive = watch.alive()
        kept = collections.Counter(alive)
        if kept:
            kept -= collections.Counter(control.alive())
        mon.event('scenario')
        mon.event('reference', len(watch.references))
        mon.case((factory.__name__, outcome,
                  tuple(label for label, _ in watch.references)))
        mon.expect(not kept, f'kept:{factory.__name__}',
                   lambda: f'{factory.__name__} ({outcome}) from seed {own}: '
                           f'still alive {dict(kept)}, referred to by '
                           f'{referrers(watch)}')

    # -- modules of users ------------------------------------------------
    for n in range(MODULES[tier]):
        own = rnd.random()
        left = []
        for requested in (False, True):
            watch = module(mon, base, own, requested)
            forget(), gc.collect()
            left.append(collections.Counter(watch.alive()))
        mon.event('module')
        mon.event('reference', len(watch.references))
        kept = left[1] - left[0]
        mon.case(('module', own))
        mon.expect(not kept, 'kept:module',
                   lambda: f'module from seed {own}: still alive '
                           f'{dict(kept)}, referred to by '
                           f'{referrers(watch)}')

    # -- growth ----------------------------------------------------------
    callables = {**dump.listing(seed, 1), **dump.user_callables()}
    keys = sorted(callables)
    # all rounds ask for the same, shards for different ones
    keys = [key for i, key in enumerate(keys) if i % shards == shard]

    def ask():
        rnd.shuffle(keys)
        for key in keys:
            dump.text_of(callables[key], base)

    growth(mon, 'requests', ask, ROUNDS[tier], len(keys) / 20)

    refused = [1, 'a', None, [], {}, object(), sys, 1.5, (), Marker()]
    refused += [callables[key] for key in keys
                if dump.text_of(callables[key], base)[1] is None][:200]

    def fail():
        for _ in range(20):
            for value in refused:
                try:
                    base.signature_from_callable(value)
                except (TypeError, ValueError):
                    pass

    growth(mon, 'failures', fail, ROUNDS[tier], len(refused) / 2)

    shared = [dump.text_of(callables[key], base)[1] for key in keys[:150]]
    shared = [s for s in shared if s is not None]
    pool = [values.random_value(rnd, evaluable=True, pickled=True
                                ).build(base, rnd)
            for _ in range(40)]

    def operate():
        watch = Watch()
        for signature in shared:
            for _ in range(5):
                use(signature, rnd, watch, mon)
        for left in pool:
            for right in pool:
                left == right
            repr(left), str(left), hash(left)
        mon.expect(not [gc.collect(), *watch.alive()][1:], 'kept:arguments',
                   lambda: f'arguments of calls of library functions are '
                           f'alive: {collections.Counter(watch.alive())}, '
                           f'referred to by {referrers(watch)}')
        mon.event('reference', len(watch.references))

    growth(mon, 'operations', operate, ROUNDS[tier], 100)


def _scenario(mon, base, own, *, requested, factory):
    return scenario(mon, base, factory, own, requested=requested)


def module(mon, base, own, requested):
    rnd = random.Random(own)
    watch = Watch()
    name = f'usermodule{rnd.randrange(1000)}'
    result, text, objects, saved = usercode.module(rnd, name)
    usercode.run_functions(objects)
    members = usercode.members(objects)
    watch(result, 'module')
    for value in members:
        if isinstance(value, (types.FunctionType, type)) and getattr(
                value, '__module__', None) == name:
            watch(value, type(value).__name__)
    if requested:
        for value in members:
            _, signature = dump.text_of(value, base)
            mon.event('requested')
            if signature is not None and rnd.random() < .3:
                use(signature, rnd, watch, mon)
    if saved is None:
        sys.modules.pop(name, None)
    else:
        sys.modules[name] = saved
    return watch


def referrers(watch):
    for _, reference in watch.references:
        value = reference()
        if value is not None:
            return [f'{type(r).__name__} {text_of(r)[:200]}'
                    for r in gc.get_referrers(value)][:4]


def text_of(value):
    try:
        return str(value)
    except Exception:
        # objects of classes whose initializers are not called
        return object.__repr__(value)
