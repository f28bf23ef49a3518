"""Bound methods, class methods and partials against what they wrap."""
import functools
import random
import types

from vlib import gen, stdlib, structure, usercode
from vlib.calls import Callee
from vlib.hostile import UNTOUCHABLE

RULE = ('case = bound object: methods, class methods, metaclass methods, '
        'aliases and super() methods of generated class hierarchies; every '
        'builtin method / method-wrapper of a pool of instances and of user '
        'subclasses overriding them; every standard library function and '
        'class method bound, also through user subclasses; partials (nested, '
        'subclassed) of all of those. Oracles: signature of the wrapped '
        'callable with the first positional parameter removed, bind(), and '
        'real calls of generated functions; non-trivial = something is bound')
MINIMUM = {'user method': 2000, 'real call': 5000, 'builtin method': 1500,
           'overridden builtin': 200, 'stdlib function bound': 5000,
           'class method': 200, 'class method through subclass': 150,
           'partial': 3000, 'nested partial': 500, 'refused partial': 300}
RANDOM = {'quick': 400, 'thorough': 6000}
PARTIALS = {'quick': 2500, 'thorough': 40000}
NAMES = usercode.METHOD_NAMES + ['m', 'compute', 'values', '__init__',
                                 '__repr__', '__init_subclass__', 'fromhex']


class Subpartial(functools.partial):
    pass


def obtain(base, value):
    """('ok', signature) or ('error', class)"""
    try:
        return 'ok', base.signature_from_callable(value)
    except (TypeError, ValueError) as error:
        return 'error', error
    except BaseException as error:
        return 'crash', error


def stripped(base, signature):
    """descriptions of the overloads left when an instance is passed first"""
    overloads = getattr(signature, 'signatures', None) or (signature,)
    result = []
    for s in overloads:
        params = list(s.parameters)
        if params and params[0].kind in (
                base.ParameterKind.POSITIONAL_ONLY,
                base.ParameterKind.POSITIONAL_OR_KEYWORD):
            params = params[1:]
        elif not (params and params[0].kind
                  is base.ParameterKind.VARIADIC_POSITIONAL):
            continue
        result.append((tuple(map(structure.parameter, params)),
                       structure.annotation(s.returns)))
    return result


def described(signature):
    return [(tuple(map(structure.parameter, s.parameters)),
             structure.annotation(s.returns))
            for s in getattr(signature, 'signatures', None) or (signature,)]


def wrapped_once(mon, base, kind, bound, underlying, where):
    """bound is underlying with something passed first"""
    status, actual = obtain(base, bound)
    if not mon.expect(status != 'crash', f'{kind}:crash:{where}',
                      lambda: f'{where} {bound!r}: {actual!r}'):
        return
    under_status, under = obtain(base, underlying)
    if under_status == 'crash':
        mon.violation(f'{kind}:crash:{where}',
                      f'{where} {underlying!r}: {under!r}')
        return
    mon.event(kind)
    if under_status == 'error':
        mon.event(kind + ', underlying has no signature')
        return
    expected = stripped(base, under)
    mon.case((kind, where, expected), nontrivial=bool(expected),
             sample=f'{kind} {where}: {expected}')
    if not expected:
        mon.expect(status == 'error', f'{kind}:accepted:{where}',
                   lambda: f'{where}: {actual!r} though {under!r} takes no '
                           f'positional argument')
        return
    mon.expect(status == 'ok' and described(actual) == expected,
               f'{kind}:differs:{where}',
               lambda: f'{where}: {actual!r}, underlying '
                       f'{under!r}, expected {expected}')


def user_function(rng, name):
    params = gen.random_list(rng, max_length=5,
                             optional_without_default=False)
    if rng.random() < .9:
        kind = (gen.PO if any(p.kind == gen.PO for p in params)
                or rng.random() < .2 else gen.PK)
        params = [p for p in params if p.name != 'slf']
        params.insert(0, gen.Param(kind, 'slf', 'r'))
    namespace = {'_D': 7}
    exec(gen.source(params, 'f'), namespace)
    function = namespace['f']
    function.__name__ = name
    function.__qualname__ = rng.choice((name, 'C.' + name, 'dict.' + name))
    function.__module__ = rng.choice(('user', '__main__', 'app.models'))
    for p in params:
        p.default = 7
    return function, params


def check_user(mon, base, rng, bound, params, kind):
    """bound runs the function with those parameters, one argument given"""
    rest = list(params)
    possible = True
    if rest and rest[0].kind in (gen.PO, gen.PK):
        del rest[0]
    elif not (rest and rest[0].kind == gen.VP):
        possible = False
    status, actual = obtain(base, bound)
    mon.event('user method')
    where = gen.shape(params)
    mon.case((kind, where), nontrivial=bool(rest), sample=f'{kind} {where}')
    if not mon.expect(status != 'crash', f'{kind}:crash',
                      lambda: f'{bound!r} of {where}: {actual!r}'):
        return
    if not possible:
        mon.expect(status == 'error', f'{kind}:accepted',
                   lambda: f'{bound!r} of {where}: {actual!r}')
        return
    if not mon.expect(status == 'ok'
                      and type(actual) is base.PlainSignature,
                      f'{kind}:refused',
                      lambda: f'{bound!r} of {where}: {actual!r}'):
        return
    got = [(p.name, gen.kind_of(p), p.default if isinstance(
                    p, base.OptionalParameter) and p.has_default else None)
           for p in actual.parameters]
    want = [(p.name, p.kind, 7 if p.req == 'd' else None) for p in rest]
    mon.expect(got == want, f'{kind}:differs',
               lambda: f'{bound!r} of {where}: {actual!r}')
    for _ in range(3):
        nargs, kw = gen.random_call(rng, rest)
        if rest != params and params[0].kind == gen.PK:
            # no parameter list says that this name is taken
            kw = tuple(k for k in kw if k != params[0].name)
        args, kwargs = (0,) * nargs, dict.fromkeys(kw, 0)
        mon.event('real call')
        accepted = gen.binds(bound, args, kwargs)
        mon.expect(actual.all_set(*args, **kwargs) is accepted,
                   f'{kind}:call',
                   lambda: f'{bound!r} of {where}: call with {nargs} and '
                           f'{kw} accepted: {accepted}')


def user_methods(mon, base, rng):
    builtin = rng.choice((object, list, dict, str, int, Exception, set,
                          tuple))
    names = rng.sample(NAMES, 3)
    functions = {n: user_function(rng, n) for n in names}
    meta_function, meta_params = user_function(rng, 'meta')
    kinds = {n: rng.choice(('instance', 'instance', 'class')) for n in names}
    meta = type('Meta', (type,), {'on_meta': meta_function})
    raw = {n: classmethod(f) if kinds[n] == 'class' else f
           for n, (f, _) in functions.items()
           if n not in ('__init__', '__init_subclass__', '__repr__', 'mro')}
    Base = meta('Base', (builtin,), dict(raw))
    overriding, overriding_params = user_function(rng, names[0])
    Child = meta(rng.choice(('Child', 'dict', 'list')), (Base,),
                 {'alias': raw.get(names[1], functions[names[1]][0]),
                  'own': overriding})
    Grandchild = meta('Grandchild', (Child,),
                      {names[0]: overriding}
                      if names[0] in raw else {})
    instance = object.__new__(Child) if builtin is object else Child()
    grandchild = (object.__new__(Grandchild) if builtin is object
                  else Grandchild())
    for n in raw:
        f, params = functions[n]
        for owner in ((instance, Base, Child, super(Grandchild, grandchild))
                      if kinds[n] == 'class'
                      else (instance, super(Grandchild, grandchild))):
            bound = getattr(owner, n)
            assert bound.__func__ is f
            check_user(mon, base, rng, bound, params,
                       f'{kinds[n]} method')
    if names[0] in raw:
        check_user(mon, base, rng, getattr(grandchild, names[0]),
                   overriding_params, 'overriding method')
    if names[1] in raw:
        check_user(mon, base, rng, instance.alias, functions[names[1]][1],
                   'alias')
    check_user(mon, base, rng, instance.own, overriding_params, 'own method')
    check_user(mon, base, rng, Child.on_meta, meta_params, 'metaclass method')
    check_user(mon, base, rng,
               types.MethodType(functions[names[2]][0], UNTOUCHABLE),
               functions[names[2]][1], 'foreign method')


def instances():
    import collections
    import datetime
    import decimal
    import fractions
    import io
    import pathlib
    import queue
    import random as random_
    import re
    import threading
    result = [0, 1.5, 1j, True, 'x', b'x', bytearray(b'x'), (1,), [1], {1: 2},
              {1}, frozenset({1}), None, ..., range(3), slice(1),
              memoryview(b'x'), object(), iter([1]), iter({1: 2}),
              reversed([1]), enumerate([]), zip(), map(len, []),
              filter(None, []), (i for i in ()), {}.keys(), {}.items(),
              {}.values(), lambda: 0, len, [].append, ValueError('x'),
              KeyError(1), OSError(1, 'x'), collections.OrderedDict(a=1),
              collections.Counter('ab'), collections.deque([1]),
              collections.defaultdict(int), collections.ChainMap(),
              datetime.date(2020, 1, 1), datetime.datetime(2020, 1, 1),
              datetime.timedelta(1), datetime.timezone.utc,
              decimal.Decimal(1), decimal.Context(), fractions.Fraction(1),
              io.BytesIO(), io.StringIO(), pathlib.PurePosixPath('/x'),
              re.compile('x'), re.match('x', 'x'), queue.Queue(),
              queue.SimpleQueue(), random_.Random(1), threading.Lock(),
              threading.RLock(), types.SimpleNamespace(a=1),
              types.MappingProxyType({}), property(len), classmethod(len),
              staticmethod(len), functools.partial(len), super(int, 1),
              int, dict, type, list[int], int | str, types, BaseException,
              compile('1', 'x', 'eval')]
    return result


def user_subclass(rng, cls, index):
    """subclass overriding everything with something else"""
    def other(self, first, second, *, third=3):
        raise AssertionError

    overridden = {n: other for n in dir(cls)
                  if rng.random() < .5
                  and n not in ('__class__', '__new__', '__init__',
                                '__getattribute__', '__setattr__',
                                '__init_subclass__', '__subclasshook__',
                                '__class_getitem__', '__del__', '__dict__',
                                '__doc__', '__module__', '__slots__',
                                '__hash__', '__eq__', '__repr__',
                                '__weakref__', '__delattr__', '__getattr__',
                                '__set_name__', '__mro_entries__')}
    try:
        return type(rng.choice(('Sub', cls.__name__)), (cls,),
                    {'__module__': 'user', **overridden})
    except TypeError:
        return None


def builtin_methods(mon, base, rng, shard, shards):
    bound_types = (types.BuiltinMethodType, types.MethodWrapperType)
    pool = instances()
    for i, instance in enumerate(pool):
        if i % shards != shard:
            continue
        for cls in type(instance).__mro__:
            for name, descriptor in sorted(vars(cls).items()):
                if not isinstance(descriptor, (types.MethodDescriptorType,
                                               types.WrapperDescriptorType)):
                    continue
                try:
                    bound = descriptor.__get__(instance, type(instance))
                except TypeError:
                    continue
                if isinstance(bound, bound_types):
                    wrapped_once(mon, base, 'builtin method', bound,
                                 descriptor, f'{cls.__name__}.{name}')
    makers = [(list, []), (dict, {}), (str, ''), (int, 0), (set, set()),
              (tuple, ()), (Exception, None), (bytes, b''), (float, 0.)]
    for cls, _ in makers:
        Sub = user_subclass(rng, cls, shard)
        if Sub is None:
            continue
        instance = cls.__new__(Sub)
        for name in dir(cls):
            bound = None
            try:
                bound = getattr(super(Sub, instance), name)
            except AttributeError:
                continue
            descriptor = next((vars(c)[name] for c in cls.__mro__
                               if name in vars(c)), None)
            if isinstance(bound, bound_types) and isinstance(
                    descriptor, (types.MethodDescriptorType,
                                 types.WrapperDescriptorType)):
                wrapped_once(mon, base, 'overridden builtin', bound,
                             descriptor, f'super {cls.__name__}.{name}')


def library(mon, base, rng, pool):
    for path, value in pool:
        if (isinstance(value, types.FunctionType)
                or isinstance(value, types.BuiltinFunctionType)
                and isinstance(value.__self__, types.ModuleType)):
            wrapped_once(mon, base, 'stdlib function bound',
                         types.MethodType(value, UNTOUCHABLE), value, path)
        elif (isinstance(value, types.MethodType)
              and isinstance(value.__func__, types.FunctionType)):
            wrapped_once(mon, base, 'class method', value, value.__func__,
                         path)


class Mixin:
    pass


@classmethod
def unlike(cls, first, second, *, third=3):
    raise AssertionError


def subclass_access(mon, base, rng, pool):
    """builtin and Python class methods give the same through subclasses"""
    for path, cls in pool:
        if not isinstance(cls, type):
            continue
        try:
            Sub = types.new_class('Sub', (cls,))
            SubSub = types.new_class('SubSub', (Sub,))
        except BaseException:
            continue
        descendants = [Sub, SubSub]
        for bases in ((Mixin, cls), (Mixin, SubSub)):
            try:
                descendants.append(types.new_class('Mixed', bases))
            except BaseException:
                pass
        for name, raw in sorted(vars(cls).items()):
            if not isinstance(raw, (classmethod,
                                    types.ClassMethodDescriptorType)):
                continue
            try:
                own = getattr(cls, name)
                status, expected = obtain(base, own)
            except BaseException:
                continue
            try:
                # the name leads to something else
                renamed = types.new_class(
                        'Renamed', (Sub,), {},
                        lambda ns: ns.update({name: unlike, 'alias': raw})
                ).alias
            except BaseException:
                pass
            else:
                check_inherited(mon, base, path, name + ' as alias', status,
                                expected, renamed)
            for index, descendant in enumerate(descendants):
                try:
                    inherited = (getattr(descendant, name) if index != 1
                                 else getattr(super(SubSub, SubSub), name))
                except BaseException:
                    continue
                if not isinstance(inherited, (types.MethodType,
                                              types.BuiltinMethodType)):
                    continue
                check_inherited(mon, base, path, name, status, expected,
                                inherited)


def check_inherited(mon, base, path, name, status, expected, inherited):
    got, actual = obtain(base, inherited)
    mon.event('class method through subclass')
    mon.case(('subclass', path, name),
             sample=f'{path}.{name} through subclass')
    key = f'subclass:{path}.{name}'
    if status == 'ok':
        mon.expect(got == 'ok'
                   and described(actual) == described(expected), key,
                   lambda: f'{actual!r} through {inherited.__self__!r}, '
                           f'{expected!r} directly')
    else:
        mon.expect(got != 'crash' and status != 'crash', key,
                   lambda: f'{expected!r} {actual!r}')


def partials_of_user_functions(mon, base, rng, count):
    for _ in range(count):
        params = gen.random_list(rng, max_length=6,
                                 optional_without_default=False)
        callee = Callee(params)
        signature = base.signature_from_callable(callee.function)
        value, args, kwargs = callee.function, (), {}
        for level in range(rng.choice((1, 1, 2, 3))):
            nargs, kw = gen.random_call(rng, params)
            nargs = min(nargs, rng.randrange(4))
            if level:
                nargs = min(nargs, 1)
            taken = {p.name for p in [p for p in params if p.kind in (
                gen.PO, gen.PK)][:len(args) + nargs] if p.kind == gen.PK}
            # no parameter list says that names are taken
            more = {k: object() for k in kw[:rng.randrange(3)]
                    if k not in taken}
            cls = rng.choice((functools.partial, functools.partial,
                              Subpartial))
            value = cls(value, *[UNTOUCHABLE] * nargs, **more)
            if rng.random() < .5:
                value.tag = 1  # keeps it from being flattened
            args += (UNTOUCHABLE,) * nargs
            kwargs.update(more)
        if isinstance(value.func, functools.partial):
            mon.event('nested partial')
        mon.event('partial')
        where = (f'{gen.shape(params)} with {len(args)} and '
                 f'{sorted(kwargs)}')
        mon.case(('partial', where, level), nontrivial=bool(args or kwargs),
                 sample=where)
        # each level has to be completable on its own
        chain, v = [], value
        while isinstance(v, functools.partial):
            chain.append(v)
            v = v.func
        possible = True
        for v in chain:
            flat = functools.partial(v)
            inner, a, k = v, (), {}
            while isinstance(inner, functools.partial):
                a, k = inner.args + a, {**inner.keywords, **k}
                inner = inner.func
            possible = possible and callee.completable(a, k)
        status, actual = obtain(base, value)
        if not possible:
            mon.event('refused partial')
            mon.expect(status == 'error' and isinstance(actual, TypeError),
                       'partial:accepted', lambda: f'{where}: {actual!r}')
            continue
        if not mon.expect(status == 'ok', 'partial:refused',
                          lambda: f'{where}: {actual!r}'):
            continue
        mon.expect(structure.signature(actual)
                   == structure.signature(signature.bind(*args, **kwargs)),
                   'partial:differs',
                   lambda: f'{where}: {actual!r}, bind gives '
                           f'{signature.bind(*args, **kwargs)!r}')
        positional = [p for p in params if p.kind in (gen.PO, gen.PK)]
        lost = {p.name for p in positional[:len(args)] if p.kind == gen.PK}
        for _ in range(4):
            nargs, kw = gen.random_call(rng, params)
            kw = [k for k in kw if k not in lost]
            nargs = max(0, nargs - len(args))
            call = dict.fromkeys(kw, 0)
            mon.event('real call')
            accepted = gen.binds(value, (0,) * nargs, call)
            mon.expect(actual.all_set(*(0,) * nargs, **call) is accepted,
                       'partial:call',
                       lambda: f'{where}: then {nargs} and {kw}: Python '
                               f'accepts {accepted}, {actual!r}')


def partials_of_library(mon, base, rng, pool, count):
    for path, value in rng.sample(pool, min(count, len(pool))):
        status, signature = obtain(base, value)
        if status != 'ok':
            continue
        names = sorted({p.name for s in getattr(signature, 'signatures',
                                                (signature,))
                        for p in s.parameters})
        args = (UNTOUCHABLE,) * rng.choice((0, 0, 1, 1, 2, 3))
        kwargs = {n: object() for n in rng.sample(
                names, min(len(names), rng.choice((0, 0, 1, 2))))}
        try:
            expected = signature.bind(*args, **kwargs)
        except TypeError:
            expected = None
        got, actual = obtain(base, functools.partial(value, *args, **kwargs))
        mon.event('partial')
        mon.case(('library partial', path, len(args), sorted(kwargs)),
                 nontrivial=bool(args or kwargs))
        if expected is None:
            mon.event('refused partial')
            mon.expect(got == 'error' and isinstance(actual, TypeError),
                       f'library-partial:accepted:{path}',
                       lambda: f'{len(args)} {sorted(kwargs)}: {actual!r}')
        else:
            mon.expect(got == 'ok' and structure.signature(actual)
                       == structure.signature(expected),
                       f'library-partial:differs:{path}',
                       lambda: f'{len(args)} {sorted(kwargs)}: {actual!r}, '
                               f'bind gives {expected!r}')


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    rng = random.Random(f'P12{seed}/{shard}')
    for _ in range(RANDOM[tier] // shards * 4):
        user_methods(mon, base, rng)
    builtin_methods(mon, base, rng, shard, shards)
    partials_of_user_functions(mon, base, rng, PARTIALS[tier] // shards * 2)
    pool = sorted(stdlib.walk(stdlib.import_all()).items())
    mine = pool[shard::shards]
    library(mon, base, rng, mine)
    subclass_access(mon, base, rng, mine)
    for _ in range(1 if tier == 'quick' else 15):
        partials_of_library(mon, base, rng, mine, 700)
