"""User-defined callables against inspect.signature."""
import functools
import inspect
import random
import sys
import types
import typing

from vlib import gen, usercode

RULE = ('case = function / lambda / coroutine / generator / nested function / '
        'method / class of a generated user module (names mostly equal to '
        'names of builtins and standard library objects, decorated, '
        'inherited, with rewritten __qualname__ / __module__); '
        'oracle: inspect.signature, objects compared by identity; '
        'non-trivial = at least one parameter')
MINIMUM = {'function': 2000, 'class': 1000, 'method': 300,
           'named like a builtin': 1000, 'name rewritten': 300,
           'nested': 200, 'changed class': 500, 'sibling': 1500, 'changed': 1500}
MODULES = {'quick': 640, 'thorough': 40000}
NAMES = ['usercode', 'app', 'pkg.sub.module', 'tests', 'builtin', 'stubs',
         'paradigm_user', '__main__', 'mypy_user', 'os_path', 'typing_']
QUALNAMES = ['', 'len', 'dict.get', 'a.b.c', '<lambda>', 'f.<locals>.len',
             'print', 'OrderedDict', '.', 'é', 'list.append', 'int', 'sorted',
             'partial', 'reduce', 'path.join', 'cast', 'dumps', 'dict',
             'str.maketrans', 'object.__init__', 'type', 'max']
empty = inspect.Parameter.empty


def expected_of(value):
    signature = inspect.signature(value)
    is_class = isinstance(value, type)
    while isinstance(value, functools.partial):
        value = value.func
    params = [(p.name, int(p.kind),
               typing.Any if p.annotation is empty else p.annotation,
               p.default) for p in signature.parameters.values()]
    returns = (typing.Self if is_class
               else typing.Any if signature.return_annotation is empty
               else signature.return_annotation)
    return params, returns


def describe(value):
    return (f'{type(value).__name__} {getattr(value, "__module__", "?")!r} '
            f'{getattr(value, "__qualname__", "?")!r}')


def one(mon, base, value, kind, text):
    try:
        expected, returns = expected_of(value)
    except (TypeError, ValueError) as error:
        expected, reason = None, error
    try:
        signature = base.signature_from_callable(value)
    except (TypeError, ValueError) as error:
        mon.event('without signature')
        mon.expect(expected is None, f'{kind}:refused',
                   lambda: f'{describe(value)}: {error!r}, expected '
                           f'{expected}\n{text}')
        return
    except BaseException as error:
        mon.violation(f'{kind}:error', f'{describe(value)}: {error!r}\n'
                                       f'{text}')
        return
    mon.event(kind)
    if expected is None:
        mon.violation(f'{kind}:invented', f'{describe(value)}: {signature!r} '
                                          f'instead of {reason!r}\n{text}')
        return
    mon.case((kind, value.__class__.__name__,
              [(n, k, str(a), str(d)) for n, k, a, d in expected]),
             nontrivial=bool(expected),
             sample=f'{describe(value)} {inspect.signature(value)}')
    if not mon.expect(type(signature) is base.PlainSignature,
                      f'{kind}:overloaded',
                      lambda: f'{describe(value)}: {signature!r}\n{text}'):
        return
    actual = signature.parameters
    same = (len(actual) == len(expected)
            and all(p.name == n and gen.kind_of(p) == k
                    and (p.annotation is a or isinstance(a, str)
                         and p.annotation == a
                         or type(a).__module__ in ('typing', 'types')
                         and p.annotation == a)
                    and (isinstance(p, base.RequiredParameter)
                         if d is empty and k not in (gen.VP, gen.VK)
                         else isinstance(p, base.OptionalParameter)
                         and p.has_default is (d is not empty)
                         and (d is empty or p.default is d))
                    for p, (n, k, a, d) in zip(actual, expected))
            and (signature.returns is returns or signature.returns == returns))
    mon.expect(same, f'{kind}:differs',
               lambda: f'{describe(value)}: {signature!r}, expected '
                       f'{expected} -> {returns}\n{text}')


class Twin:
    """equal to its twins, yet another object"""
    def __eq__(self, other):
        return isinstance(other, Twin) or NotImplemented

    def __hash__(self):
        return 0


TWINS = ((1, True, 1.0), (0, False, -0.0), ((1,), (True,), (1.0,)),
         ('', str(), bytes()), (Twin, Twin, Twin))


def twins(rng, values):
    """equal, but different values"""
    result = []
    for value in values:
        known = [t for t in TWINS if any(value is v for v in t)]
        style = rng.choice(known or TWINS)
        value = rng.choice(style)
        result.append(Twin() if value is Twin else value)
    return tuple(result)


def copied(value):
    result = types.FunctionType(value.__code__, value.__globals__,
                                value.__name__, value.__defaults__,
                                value.__closure__)
    result.__kwdefaults__ = value.__kwdefaults__ and dict(
            value.__kwdefaults__)
    result.__annotations__ = dict(value.__annotations__)
    result.__qualname__ = value.__qualname__
    return result


def redefaulted(rng, value):
    value.__defaults__ = value.__defaults__ and twins(rng,
                                                      value.__defaults__)
    if value.__kwdefaults__:
        value.__kwdefaults__ = dict(zip(
                value.__kwdefaults__,
                twins(rng, value.__kwdefaults__.values())))


def reannotated(rng, value):
    names = [*inspect.signature(value).parameters, 'return']
    changed = dict(value.__annotations__)
    for name in names:
        style = rng.random()
        if style < .3:
            changed[name] = rng.choice((int, str, 'forward', None, Twin(), '',
                                        typing.List[int]))
        elif style < .5:
            changed.pop(name, None)
    value.__annotations__ = changed


def histories(mon, base, rng, value, text):
    """what is said about a function depends on nothing but its present
    state"""
    for _ in range(2):
        sibling = copied(value)
        redefaulted(rng, sibling)
        mon.event('sibling')
        one(mon, base, sibling, 'sibling', text)
    target = copied(value)
    for _ in range(3):
        one(mon, base, target, 'changed', text)
        (redefaulted if rng.random() < .5 else reannotated)(rng, target)
    one(mon, base, target, 'changed', text)


def class_histories(mon, base, rng, value, functions, text):
    """the same for a class and one derived from it"""
    try:
        parent = types.new_class(value.__name__, (value,), {
            'metaclass': type(value)}, lambda ns: ns.update(
                __module__=value.__module__,
                __qualname__=value.__qualname__))
        child = types.new_class(value.__name__, (parent,), {
            'metaclass': type(value)}, lambda ns: ns.update(
                __module__=value.__module__,
                __qualname__=value.__qualname__))
    except Exception:
        return
    for _ in range(4):
        one(mon, base, parent, 'changed class', text)
        one(mon, base, child, 'changed class', text)
        target = rng.choice((parent, parent, child))
        name = rng.choice(('__init__', '__init__', '__new__'))
        try:
            if name in vars(target) and rng.random() < .4:
                delattr(target, name)
            else:
                setattr(target, name, rng.choice(functions))
        except Exception:
            return
    one(mon, base, parent, 'changed class', text)
    one(mon, base, child, 'changed class', text)


def kind_of(value):
    if isinstance(value, type):
        return 'class'
    if isinstance(value, types.MethodType):
        return 'method'
    if isinstance(value, functools.partial):
        return 'partial'
    return 'function'


def work(mon, *, tier, seed, shard, shards):
    import builtins
    import collections
    import json
    from paradigm import base
    rng = random.Random(f'P11{seed}/{shard}')
    main = sys.modules['__main__']
    for i in range(MODULES[tier] // shards):
        name = rng.choice(NAMES)
        module, text, objects, saved = usercode.module(
                rng, name, registered=rng.random() < .7)
        usercode.run_functions(objects)
        members = [v for v in usercode.members(objects)
                   if isinstance(v, (types.FunctionType, types.MethodType,
                                     type, functools.partial))]
        instances = []
        for v in members:
            # bound to instances without running constructors
            if isinstance(v, types.FunctionType) and rng.random() < .2:
                instances.append(types.MethodType(v, module))
        for value in members + instances:
            if getattr(value, '__module__', None) in sys.stdlib_module_names:
                # synthesized by the standard library on behalf of it
                continue
            kind = kind_of(value)
            last = getattr(value, '__name__', '')
            if hasattr(builtins, last):
                mon.event('named like a builtin')
            if '<locals>' in getattr(value, '__qualname__', ''):
                mon.event('nested')
            one(mon, base, value, kind, text)
        functions = [v for v in members if type(v) is types.FunctionType]
        for value in members:
            if (isinstance(value, type) and functions and value.__module__
                    not in sys.stdlib_module_names and rng.random() < .3):
                class_histories(mon, base, rng, value, functions, text)
        # names say nothing about functions
        for value in members:
            if not isinstance(value, types.FunctionType):
                continue
            if (getattr(value, '__module__', None)
                    not in sys.stdlib_module_names and rng.random() < .3):
                histories(mon, base, rng, value, text)
            if rng.random() < .3:
                value = types.FunctionType(
                        value.__code__, value.__globals__, value.__name__,
                        value.__defaults__, value.__closure__)
                value.__kwdefaults__ = {
                    n: object() for n in inspect.getfullargspec(
                            value).kwonlyargs if rng.random() < .5}
                style = rng.random()
                if style < .7:
                    value.__qualname__ = rng.choice(QUALNAMES)
                if style > .5:
                    value.__module__ = rng.choice((
                        None, '', 'no.such.module', '__main__', 'a..b'))
                mon.event('name rewritten')
                one(mon, base, value, 'renamed', text)
        if saved is None:
            sys.modules.pop(name, None)
        else:
            sys.modules[name] = saved
    sys.modules['__main__'] = main
