"""repr evaluates back."""
import importlib
import random
import sys
import types
import typing

from vlib import gen, stdlib, structure, twins, values

RULE = ('case = generated parameter / plain / overloaded signature with '
        'evaluable annotations and defaults, and signatures of standard '
        'library callables made of such; repr is taken twice, evaluated in a '
        'namespace of the public classes and imported modules and compared '
        'with the original by class, ==, independent structural description, '
        'repr and answers to calls; non-trivial = has parameters')
MINIMUM = {'generated': 1000, 'standard library': 3000, 'overloaded': 300,
           'answers compared': 2000, 'twin': 2000}
TWINS = {'quick': 800, 'thorough': 16000}
COUNT = {'quick': 4000, 'thorough': 600000}


def namespace(base):
    result = {name: module for name, module in sys.modules.items()
              if '.' not in name and isinstance(module, types.ModuleType)}
    result.update({name: getattr(base, name) for name in (
        'OptionalParameter', 'OverloadedSignature', 'ParameterKind',
        'PlainSignature', 'RequiredParameter')})
    return result


def importable(c):
    module = sys.modules.get(c.__module__)
    for part in c.__qualname__.split('.'):
        module = getattr(module, part, None)
    return module is c


PRIMITIVE = (int, str, bytes, bool, type(None), type(...))


def evaluable_default(value):
    if isinstance(value, (list, tuple)):
        return type(value) in (list, tuple) and all(
                map(evaluable_default, value))
    return type(value) in PRIMITIVE or (
            type(value) is float and value == value and abs(value) < 1e300)


def evaluable(value, top=True):
    """composed of classes, typing constructs, type variables"""
    if value is None or value is typing.Any or value is typing.Self \
            or value is Ellipsis:
        return True
    if isinstance(value, (typing.ParamSpecArgs, typing.ParamSpecKwargs)):
        return False
    if isinstance(value, typing.TypeVar):
        return (evaluable(value.__bound__)
                and all(map(evaluable, value.__constraints__)))
    if isinstance(value, list):
        return all(map(evaluable, value))
    if isinstance(value, types.GenericAlias) or isinstance(
            value, types.UnionType):
        # repr is produced by Python itself, which abbreviates variables
        return (not value.__parameters__
                and importable(getattr(value, '__origin__', int))
                and all(map(evaluable, value.__args__)))
    origin = typing.get_origin(value)
    if origin is typing.Literal:
        return all(type(a) in PRIMITIVE for a in value.__args__)
    if origin is not None and not hasattr(value, '__metadata__'):
        return ((not isinstance(origin, type) or importable(origin))
                and all(map(evaluable, typing.get_args(value))))
    return isinstance(value, type) and importable(value)


def parts_evaluable(s):
    if hasattr(s, 'signatures'):
        return all(map(parts_evaluable, s.signatures))
    return evaluable(s.returns) and all(
            evaluable(p.annotation)
            and (not getattr(p, 'has_default', False)
                 or evaluable_default(p.default)) for p in s.parameters)


def one(mon, ns, value, key, calls=()):
    name = type(value).__name__
    try:
        text = repr(value)
        again = repr(value)
    except Exception as error:
        mon.violation(f'{key}:{name}:repr', repr(error))
        return
    mon.case(text, nontrivial='name=' in text)
    mon.expect(text == again, f'{key}:{name}:changes', f'{text} / {again}')
    if name == 'OverloadedSignature':
        mon.event('overloaded')
    try:
        other = eval(text, dict(ns))
    except Exception as error:
        mon.violation(f'{key}:{name}:eval', f'{text}: {error!r}')
        return
    if not mon.expect(type(other) is type(value), f'{key}:{name}:class',
                      text):
        return
    describe = structure.parameter if hasattr(
            value, 'annotation') else structure.signature
    try:
        mon.expect(other == value and value == other, f'{key}:{name}:equal',
                   lambda: f'{text} gave {other!r}')
        mon.expect(describe(other) == describe(value),
                   f'{key}:{name}:structure',
                   lambda: f'{describe(value)} became {describe(other)}')
        for nargs, kw in calls:
            a, k = (0,) * nargs, dict.fromkeys(kw, 0)
            if hasattr(value, 'expects'):
                mon.event('answers compared')
                mon.expect(value.expects(*a, **k) == other.expects(*a, **k)
                           and value.all_set(*a, **k)
                           == other.all_set(*a, **k),
                           f'{key}:{name}:answers', f'{text} on {nargs} {kw}')
    except Exception as error:
        mon.violation(f'{key}:{name}:error', f'{text}: {error!r}')


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    rng = random.Random(f'P09{seed}/{shard}')
    twins.texts(mon, base, rng, repr, TWINS[tier] // shards)
    importlib.import_module('vlib.annotations')
    modules = stdlib.import_all()
    ns = namespace(base)
    for _ in range(COUNT[tier] // shards):
        spec = values.random_value(rng, evaluable=True)
        lists = ([spec.params] if isinstance(spec, values.Sig)
                 else [s.params for s in spec.sigs]
                 if isinstance(spec, values.Over) else [[]])
        value = spec.build(base, rng, plain=True)
        mon.event('generated')
        one(mon, ns, value, 'generated',
            [gen.random_call(rng, rng.choice(lists)) for _ in range(3)])
        if rng.random() < .1:
            for spec in values.family(rng, evaluable=True):
                value = spec.build(base, rng, plain=True)
                if parts_evaluable(value) if hasattr(
                        value, 'returns') else evaluable(value.annotation):
                    mon.event('family')
                    one(mon, ns, value, 'family')
    paths = sorted(stdlib.walk(modules).items())
    for path, value in paths[shard::shards]:
        try:
            signature = base.signature_from_callable(value)
        except (TypeError, ValueError):
            continue
        if not parts_evaluable(signature):
            mon.event('skipped: annotations without evaluable repr')
            continue
        mon.event('standard library')
        one(mon, ns, signature, 'stdlib', [(n, ()) for n in range(3)])
        if tier == 'thorough' or rng.random() < .2:
            for s in getattr(signature, 'signatures', (signature,)):
                for p in s.parameters:
                    one(mon, ns, p, 'stdlib')
