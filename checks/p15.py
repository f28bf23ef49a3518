"""Signatures of standard library classes, and of functions that the stubs
declare as classes, against the constructors that mypy finds in the stubs."""
from vlib import declared, typeshed

RULE = ('case = class of the importable standard library that the bundled '
        'stubs declare; oracle: overloads, names, order, variadics, '
        'keyword-only parameters and optionality of the initializer / '
        'allocator found first along the MRO that mypy computes, without '
        'the first parameter; initializers return Self; the same for '
        'functions declared as classes; non-trivial = at least one '
        'parameter')
MINIMUM = {'__init__': 1300, '__new__': 100, 'inherited': 500,
           'no parameters': 100, 'named tuple': 20, 'factory function': 8}


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    declarations = declared.Declarations()
    factories(mon, base, declarations, shard, shards)
    for index, (path, cls, info) in enumerate(declarations.classes()):
        if index % shards != shard:
            continue
        functions, owner, name = typeshed.constructor(info)
        expected = [typeshed.outline(f, 1) for f in functions]
        try:
            signature = base.signature_from_callable(cls)
        except Exception as error:
            mon.violation(f'{path}:error',
                          f'{path}: {error!r}, expected {expected}')
            continue
        mon.event(name)
        if owner is not info:
            mon.event('inherited')
        if issubclass(cls, tuple) and hasattr(cls, '_fields'):
            mon.event('named tuple')
        actual = typeshed.outline_of(signature, base)
        if actual == [()]:
            mon.event('no parameters')
        mon.case((path, actual), nontrivial=actual != [()],
                 sample=f'{path}: {actual}')
        if not mon.expect(actual == expected, path,
                          lambda: f'{path}: {actual}, expected {expected} '
                                  f'of {owner.fullname}.{name}'):
            continue
        for overload, function in zip(getattr(signature, 'signatures',
                                              (signature,)), functions):
            returns = typeshed.exposed(overload.returns)
            if name == '__init__':
                mon.event('initializer returns')
                mon.expect(returns == 'self', f'{path}:returns',
                           lambda: f'{path}: returns {overload.returns!r}')
            elif owner is info and not declared.synthesized(owner, name):
                try:
                    wanted = typeshed.returned(function, owner)
                except typeshed.Undecided:
                    mon.event('undecided returns')
                    continue
                mon.event('allocator returns')
                mon.expect(returns in wanted, f'{path}:returns',
                           lambda: f'{path}: returns {overload.returns!r}, '
                                   f'expected {wanted}')


def factories(mon, base, declarations, shard, shards):
    """functions at runtime, classes in stubs, e.g. threading.RLock"""
    for index, pairs in enumerate(declarations.factories()):
        if index % shards != shard:
            continue
        path, value = pairs[0].path, pairs[0].value
        expected, initializers = [], set()
        for pair in pairs:
            functions, _, name = typeshed.constructor(pair.info)
            expected.append([typeshed.outline(f, 1) for f in functions])
            initializers.add(name == '__init__')
        mon.event('factory function')
        try:
            signature = base.signature_from_callable(value)
        except Exception as error:
            mon.violation(f'{path}:error',
                          f'{path}: {error!r}, expected {expected}')
            continue
        actual = typeshed.outline_of(signature, base)
        mon.case((path, actual), nontrivial=actual != [()],
                 sample=f'{path}: {actual}')
        mon.expect(actual in expected, path,
                   lambda: f'{path}: {actual}, expected {expected}')
        if initializers == {True}:
            # i.e. what is built, not what initializers return
            mon.expect(all(overload.returns is not None
                           for overload in getattr(signature, 'signatures',
                                                   (signature,))),
                       f'{path}:returns', lambda: f'{path}: {signature!r}')
