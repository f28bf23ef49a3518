"""Parameters of standard library functions against the stubs as mypy reads
them."""
import inspect
import typing

from vlib import declared, typeshed

RULE = ('case = function / method / descriptor of the importable standard '
        'library that the bundled stubs declare at a path where that very '
        'object is found; oracle: overloads, names, order, variadics, '
        'keyword-only parameters and optionality read by mypy for the '
        'running Python version and platform; non-trivial = at least one '
        'parameter')
MINIMUM = {'declared': 6500, 'inherited declaration': 900,
           'builtin': 1800, 'overloaded': 300, 'positional-only': 4000, 'bound': 90}


def runtime_outline(value):
    try:
        signature = inspect.signature(value)
    except Exception:
        return None
    kinds = {inspect.Parameter.POSITIONAL_ONLY: 'P',
             inspect.Parameter.POSITIONAL_OR_KEYWORD: 'P',
             inspect.Parameter.VAR_POSITIONAL: '*',
             inspect.Parameter.KEYWORD_ONLY: 'K',
             inspect.Parameter.VAR_KEYWORD: '**'}
    return [tuple((p.name, kinds[p.kind],
                   'r' if p.default is p.empty and kinds[p.kind] in 'PK'
                   else 'o') for p in signature.parameters.values())]


def overloads(signature):
    return getattr(signature, 'signatures', (signature,))


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    declarations = declared.Declarations()
    mon.event('stub modules', len(declarations.stubs.files))
    positional = (base.ParameterKind.POSITIONAL_ONLY,
                  base.ParameterKind.POSITIONAL_OR_KEYWORD)
    for index, candidates in enumerate(declarations.callables()):
        if index % shards != shard:
            continue
        value, path = candidates[0].value, candidates[0].path
        owned = [c for c in candidates if c.owned]
        expected = [[typeshed.outline(f, int(c.bound)) for f in c.functions]
                    for c in owned or candidates]
        kind = type(value).__name__
        key = f'{path}'
        found = None
        if not owned:
            # defined by the runtime class, declared for its superclass only
            mon.event('inherited declaration')
            found = (runtime_outline(value)
                     if declared.may_be_runtime(candidates) else ())
            if found is None:
                mon.event('nothing to compare with')
                continue
            if found:
                expected.append(found)
        else:
            mon.event('declared')
        try:
            signature = base.signature_from_callable(value)
        except Exception as error:
            mon.violation(f'{key}:error', f'{path} ({kind}): {error!r}, '
                                          f'expected {expected}')
            continue
        if kind != 'function':
            mon.event('builtin')
        if candidates[0].bound:
            mon.event('bound')
        actual = typeshed.outline_of(signature, base)
        if owned and not any(p.annotation is typing.Any
                             for s in overloads(signature)
                             for p in s.parameters):
            # i.e. is not taken from runtime
            mon.event('positional-only')
            mon.expect(all(p.kind is positional[0]
                           for s in overloads(signature)
                           for p in s.parameters if p.kind in positional),
                       f'{key}:kind', lambda: f'{path}: {signature!r}')
        if len(actual) > 1:
            mon.event('overloaded')
        mon.case((path, actual), nontrivial=any(actual),
                 sample=f'{path}: {actual}')
        mon.expect(actual in expected, key,
                   lambda: f'{path} ({kind}): {actual}, expected {expected}')
