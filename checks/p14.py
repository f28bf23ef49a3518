"""Annotations and defaults of standard library callables against the types
that mypy finds in the stubs."""
import typing

from mypy import nodes

from vlib import declared, typeshed

RULE = ('case = annotation of a parameter, default of a parameter or return '
        'annotation of a function, method or class constructor declared in '
        'the bundled stubs; oracle: the type that mypy resolves in the '
        'declaring scope, rendered independently of the library (runtime '
        'classes by identity of module and qualified name, arguments, unions '
        'and literals as sets, type variables with bound, constraints and '
        'variance) and the value written in the stub; distinct = (place, '
        'description); non-trivial = neither Any nor object')
MINIMUM = {'parameter annotation': 10000, 'return annotation': 6000,
           'default value': 1200, 'default ...': 300,
           'first parameter': 4000, 'union': 2500, 'typevar': 1500,
           'literal': 300, 'callable': 300, 'stub-only class': 300,
           'constructor': 1500, 'inherited': 800}


def annotations_in(value, seen):
    """all of the parts of annotation"""
    if id(value) in seen:
        return
    seen.add(id(value))
    yield value
    if isinstance(value, typing.TypeVar):
        if value.__bound__ is not None:
            yield from annotations_in(value.__bound__, seen)
        for c in value.__constraints__:
            yield from annotations_in(c, seen)
    for a in typing.get_args(value):
        if isinstance(a, list):
            for b in a:
                yield from annotations_in(b, seen)
        elif typing.get_origin(value) is not typing.Literal:
            yield from annotations_in(a, seen)


def check(mon, stubs, place, value, wanted):
    actual = typeshed.exposed(value)
    try:
        expected = wanted()
    except typeshed.Undecided as reason:
        recursive = str(reason) == 'recursive alias'
        mon.event('undecided' + ' (recursive)' * recursive)
        # references to recursive aliases are left as they are
        for part in annotations_in(value, set()):
            if isinstance(part, str) or isinstance(
                    part, typing.ForwardRef) and not recursive:
                mon.violation(f'{place}:unresolved', f'{place}: {value!r}')
        return
    for word in ('union', 'typevar', 'literal', 'callable', 'class:?'):
        if word in actual:
            mon.event('stub-only class' if word == 'class:?' else word)
    if actual.startswith('object:') and callable(value):
        # alias of a class in stubs, factory function at runtime,
        # e.g. threading.RLock
        node, _ = stubs.lookup(value.__module__, [value.__qualname__])
        if isinstance(node, nodes.TypeInfo):
            mon.event('factory function')
            actual = f'class:{node.fullname}'
    mon.case((place, actual),
             nontrivial=actual not in ('any', 'class:builtins.object'),
             sample=f'{place}: {actual}')
    mon.expect(actual in expected, place,
               lambda: f'{place}: {value!r} i.e. {actual}, expected '
                       f'{expected}')


def defaults(mon, base, place, parameter, argument, module):
    if argument.initializer is None:
        return
    try:
        expected = typeshed.default(argument.initializer, module)
    except typeshed.Undecided as reason:
        mon.event('undecided default')
        return
    if not mon.expect(isinstance(parameter, base.OptionalParameter),
                      f'{place}:required', f'{place}: {parameter!r}'):
        return
    if expected[0] == 'none':
        mon.event('default ...')
        mon.case((place, '...'), nontrivial=True)
        mon.expect(not parameter.has_default, f'{place}:default',
                   lambda: f'{place}: {parameter!r} has default instead of '
                           '...')
        return
    mon.event('default value')
    mon.case((place, 'default', repr(expected[1])),
             sample=f'{place} = {expected[1]!r}')
    if not mon.expect(parameter.has_default, f'{place}:default',
                      lambda: f'{place}: {parameter!r} has no default, '
                              f'expected {expected[1]!r}'):
        return
    actual = parameter.default
    mon.expect(type(actual) is type(expected[1])
               and (actual is expected[1] or repr(actual)
                    == repr(expected[1])), f'{place}:default',
               lambda: f'{place}: default {actual!r}, expected '
                       f'{expected[1]!r}')


def compare(mon, base, stubs, path, signature, functions, dropped, owner, module,
            *, returns, info=None):
    overloads = getattr(signature, 'signatures', (signature,))
    for n, (overload, function) in enumerate(zip(overloads, functions)):
        suffix = f'#{n}' * (len(functions) > 1)
        specialized = typeshed.specialized(function, info, owner)
        types = None if specialized is None else specialized.arg_types
        static = function.is_static and function.name != '__new__'
        for k, parameter in enumerate(overload.parameters, start=dropped):
            place = f'{path}{suffix}:{parameter.name}'
            argument = function.arguments[k]
            if k == 0 and owner is not None and not static:
                mon.event('first parameter')
                actual = typeshed.exposed(parameter.annotation)
                wanted = ['class:builtins.type[self]'
                          if function.is_class or function.name == '__new__'
                          else 'self']
                if types is not None:
                    try:
                        wanted.append(typeshed.annotation(types[0]))
                    except typeshed.Undecided:
                        mon.event('undecided')
                        continue
                mon.case((place, actual), nontrivial=False)
                mon.expect(actual in wanted, place,
                           lambda: f'{place}: {parameter.annotation!r}, '
                                   f'expected one of {wanted}')
                continue
            mon.event('parameter annotation')
            check(mon, stubs, place, parameter.annotation,
                  lambda: ['any'] if types is None else
                  typeshed.finalized(types[k], owner))
            defaults(mon, base, place, parameter, argument, module)
        if returns:
            mon.event('return annotation')
            check(mon, stubs, f'{path}{suffix}:return', overload.returns,
                  lambda: typeshed.returned(function, owner, specialized))


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    declarations = declared.Declarations()
    for index, candidates in enumerate(declarations.callables()):
        if index % shards != shard:
            continue
        owned = [c for c in candidates if c.owned]
        if not owned:
            inherited(mon, base, declarations, candidates)
            continue
        value = owned[0].value
        if owned[0].owner is None and isinstance(value, declared.BOUND):
            mon.event('method of a hidden object')
            continue
        try:
            signature = base.signature_from_callable(value)
        except Exception:
            mon.event('no signature')
            continue
        outline = typeshed.outline_of(signature, base)
        owned = [c for c in owned
                 if outline == [typeshed.outline(f, int(c.bound))
                                for f in c.functions]]
        if not owned:
            mon.event('other parameters')
            continue
        if len(owned) > 1 and len({id(c.functions[0]) for c in owned}) > 1:
            # declared independently in several places
            mon.event('several declarations')
            if not any(clean(base, declarations.stubs, c, signature) for c in owned):
                c = owned[0]
                compare(mon, base, declarations.stubs, c.path, signature, c.functions,
                        int(c.bound), c.owner, c.module, returns=True)
            continue
        c = owned[0]
        compare(mon, base, declarations.stubs, c.path, signature, c.functions, int(c.bound),
                c.owner, c.module, returns=True)
    for index, (path, cls, info) in enumerate(declarations.classes()):
        if index % shards != shard:
            continue
        functions, owner, name = typeshed.constructor(info)
        if declared.synthesized(owner, name):
            continue
        try:
            signature = base.signature_from_callable(cls)
        except Exception:
            continue
        if typeshed.outline_of(signature, base) != [
                typeshed.outline(f, 1) for f in functions]:
            mon.event('other parameters')
            continue
        mon.event('constructor')
        compare(mon, base, declarations.stubs, path, signature, functions, 1, owner, None,
                returns=False, info=info)


def inherited(mon, base, declarations, candidates):
    """defined by the runtime class, declared for its superclass only"""
    c = candidates[0]
    module, path = declarations.split(c.path)
    info, _ = declarations.stubs.lookup(module, path[:-1])
    if not isinstance(info, nodes.TypeInfo) or c.owner is None:
        return
    if any(base_info.is_named_tuple for base_info in info.mro):
        return
    try:
        signature = base.signature_from_callable(c.value)
    except Exception:
        mon.event('no signature')
        return
    if typeshed.outline_of(signature, base) != [
            typeshed.outline(f, int(c.bound)) for f in c.functions]:
        mon.event('other parameters')
        return
    if declared.may_be_runtime([c]) and all(
            p.annotation is typing.Any
            for s in getattr(signature, 'signatures', (signature,))
            for p in s.parameters):
        mon.event('from runtime')
        return
    mon.event('inherited')
    compare(mon, base, declarations.stubs, c.path, signature, c.functions,
            int(c.bound), c.owner, c.module, returns=True, info=info)


def clean(base, stubs, candidate, signature):
    from vlib.monitor import Monitor
    trial = Monitor()
    compare(trial, base, stubs, candidate.path, signature, candidate.functions,
            int(candidate.bound), candidate.owner, candidate.module,
            returns=True)
    return not trial.violations
