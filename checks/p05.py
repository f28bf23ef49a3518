"""Which parameter lists can be built, against the interpreter's compiler
and inspect.Signature."""
import inspect
import itertools
import random

from vlib import gen

RULE = ('case = sequence of parameters (kind, required / optional / default, '
        'name), legal or not: all sequences of kinds and optionality up to '
        'length 3 (4 thorough) with distinct and clashing names, and seeded '
        'random ones (legal lists with one mutation) up to length 9; oracle: '
        'independent statement of Python\'s rules, cross-checked with '
        'inspect.Signature; non-trivial = at least two parameters')
MINIMUM = {'legal': 500, 'illegal': 2000, 'illegal parameter': 10,
           'cross-checked with inspect': 2000}
RANDOM = {'quick': 30000, 'thorough': 400000}
SLOTS = [(gen.PO, 'r'), (gen.PO, 'd'), (gen.PO, 'o'), (gen.PK, 'r'),
         (gen.PK, 'd'), (gen.PK, 'o'), (gen.VP, 'o'), (gen.KO, 'r'),
         (gen.KO, 'd'), (gen.KO, 'o'), (gen.VK, 'o')]


def inspect_legal(params):
    kinds = list(inspect._ParameterKind)
    try:
        inspect.Signature([
            inspect.Parameter(p.name, kinds[p.kind],
                              **({'default': 0}
                                 if p.req != 'r'
                                 and p.kind not in (gen.VP, gen.VK)
                                 else {})) for p in params])
    except ValueError:
        return False
    return True


def one(mon, base, params):
    legal = gen.legal(params)
    shape = gen.shape(params)
    mon.case(shape, nontrivial=len(params) > 1)
    mon.event('legal' if legal else 'illegal')
    kinds = [p.kind for p in params]
    # inspect.Signature does not count variadic parameters
    if kinds.count(gen.VP) < 2 and kinds.count(gen.VK) < 2:
        if inspect_legal(params) != legal:
            raise AssertionError(f'oracles disagree on {shape}')
        mon.event('cross-checked with inspect')
    objects = [gen.parameter(p, base) for p in params]
    returns = object()
    try:
        signature = base.PlainSignature(*objects, returns=returns)
    except ValueError as error:
        mon.expect(not legal, 'refused-legal', f'({shape}): {error!r}')
    except BaseException as error:
        mon.violation('wrong-exception', f'({shape}): {error!r}')
    else:
        if mon.expect(legal, 'accepted-illegal', f'({shape})'):
            mon.expect(len(signature.parameters) == len(objects)
                       and all(map(lambda a, b: a is b,
                                   signature.parameters, objects))
                       and signature.returns is returns, 'exposed',
                       lambda: f'({shape}): {signature!r}')


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    rng = random.Random(f'P05{seed}/{shard}')
    length = {'quick': 3, 'thorough': 4}[tier]
    i = 0
    for n in range(length + 1):
        for slots in itertools.product(SLOTS, repeat=n):
            for names in {'abcd'[:n], 'aaaa'[:n], 'abab'[:n], 'aabc'[:n],
                          'abca'[:n]}:
                i += 1
                if i % shards == shard:
                    one(mon, base, [gen.Param(k, name, r)
                                    for (k, r), name in zip(slots, names)])
    for _ in range(RANDOM[tier] // shards):
        params = gen.random_list(rng)
        for _ in range(rng.choice((0, 1, 1, 1, 2))):
            mutate(rng, params)
        one(mon, base, params)
    single(mon, base, rng)


def mutate(rng, params):
    if not params:
        return
    i, j = rng.randrange(len(params)), rng.randrange(len(params))
    p = params[i]
    what = rng.randrange(5)
    if what == 0:
        params[i], params[j] = params[j], params[i]
    elif what == 1:
        p.name = params[j].name
    elif what == 2 and p.kind not in (gen.VP, gen.VK):
        p.req = rng.choice('rdo')
    elif what == 3:
        p.kind = rng.choice((gen.PO, gen.PK, gen.KO))
        if p.req == 'o' and rng.random() < .5:
            p.req = 'r'
    else:
        kind = rng.choice((gen.VP, gen.VK))
        params.insert(i, gen.Param(kind, rng.choice(gen.NAMES), 'o'))


def single(mon, base, rng):
    """construction of single parameters"""
    kinds = list(base.ParameterKind)
    mon.expect([k.name for k in kinds] == list(gen.KINDS), 'kinds', kinds)
    variadic = (base.ParameterKind.VARIADIC_POSITIONAL,
                base.ParameterKind.VARIADIC_KEYWORD)

    def attempt(key, function, expected):
        try:
            result = function()
        except expected or () as error:
            mon.event('illegal parameter')
        except BaseException as error:
            mon.violation(key, f'{error!r}, expected {expected}')
        else:
            mon.expect(expected is None, key, f'{result!r} accepted')
            return result

    defaults = [None, 0, '', ..., NotImplemented, int, [], object()]
    for kind in kinds:
        attempt(f'required-{kind.name}', lambda: base.RequiredParameter(
                annotation=int, kind=kind, name='a'),
                ValueError if kind in variadic else None)
        for default in defaults:
            result = attempt(
                    f'default-{kind.name}', lambda: base.OptionalParameter(
                            annotation=int, default=default, kind=kind,
                            name='a'),
                    ValueError if kind in variadic else None)
            if result is not None:
                mon.expect(result.has_default is True
                           and result.default is default
                           and result.kind is kind and result.name == 'a'
                           and result.annotation is int, 'default-exposed',
                           f'{default!r}')
        result = attempt(f'optional-{kind.name}',
                         lambda: base.OptionalParameter(
                                 annotation=int, kind=kind, name='a'), None)
        if result is not None:
            mon.expect(result.has_default is False, 'has_default', kind)
            mon.expect(not hasattr(result, 'default'), 'no default', kind)
    for bad in (0, 1, 2, 3, 4, 5, -1, None, 'KEYWORD_ONLY', int,
                base.ParameterKind, inspect.Parameter.KEYWORD_ONLY, True):
        attempt('bad-kind-required', lambda: base.RequiredParameter(
                annotation=int, kind=bad, name='a'), TypeError)
        attempt('bad-kind-optional', lambda: base.OptionalParameter(
                annotation=int, kind=bad, name='a'), TypeError)
