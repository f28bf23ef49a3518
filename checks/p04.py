"""Overloaded signatures against the list of their overloads."""
import itertools
import random

from vlib import gen, twins
from vlib.calls import Callee
from vlib.hostile import ODD, odd_arguments

RULE = ('case = (overload set of 2..5 random parameter lists, call): which '
        'overloads can take the call is decided by the real functions; '
        'non-trivial = the call separates the overloads (some expect it, '
        'some do not) or exactly one / none survives')
MINIMUM = {'survivors: none': 300, 'survivors: one': 300,
           'survivors: several': 300,
           'survivors equal after binding': 100, 'illegal construction refused': 20,
           'twin': 300}
TWINS = {'quick': 2000, 'thorough': 40000}
RANDOM = {'quick': 6000, 'thorough': 80000}


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    rng = random.Random(f'P04{seed}/{shard}')
    constructions(mon, base, rng)
    twins.bindings(mon, base, rng, TWINS[tier] // shards, overloaded=True)
    odd = odd_arguments(rng)
    plain_odd = odd_arguments(rng, untouchable=False)
    for _ in range(RANDOM[tier] // shards):
        count = rng.choice((2, 2, 3, 3, 4, 5))
        lists = [gen.random_list(rng, max_length=5,
                                 default=lambda r: r.choice(ODD),
                                 names=gen.NAMES[:10])
                 for _ in range(count)]
        if rng.random() < .4:
            # overloads with much in common, equal ones included
            first = lists[0]
            for i in rng.sample(range(count), rng.randint(1, count)):
                lists[i] = variation(first, rng)
        callees = [Callee(p) for p in lists]
        common = rng.random() < .5
        plains = [gen.plain(p, base, returns=(int if common else object()))
                  for p in lists]
        shape = ' | '.join(f'({gen.shape(p)})' for p in lists)
        try:
            signature = base.OverloadedSignature(*plains)
        except Exception as error:
            mon.violation('construction', f'{shape}: {error!r}')
            continue
        mon.expect(len(signature.signatures) == count
                   and all(map(lambda a, b: a is b, signature.signatures,
                               plains)), 'exposed-overloads', shape)
        for nargs, kw in sorted({gen.random_call(rng, rng.choice(lists))
                                 for _ in range(10)}):
            args = tuple(itertools.islice(odd, nargs))
            kwargs = dict(zip(kw, plain_odd))
            witness = f'{shape} with {nargs} positional and {kw}'
            able = [c.completable(args, kwargs) for c in callees]
            accepted = [c.accepts(args, kwargs) for c in callees]
            survivors = [p for p, ok in zip(plains, able) if ok]
            kind = ('none' if not survivors else 'one'
                    if len(survivors) == 1 else 'several')
            mon.event('survivors: ' + kind)
            mon.case((shape, nargs, kw),
                     nontrivial=kind != 'several' or not all(able))
            try:
                mon.expect(signature.expects(*args, **kwargs)
                           is any(able), 'expects', witness)
                mon.expect(signature.all_set(*args, **kwargs)
                           is any(accepted), 'all_set', witness)
            except Exception as error:
                mon.violation('query-error', f'{witness}: {error!r}')
            try:
                result = signature.bind(*args, **kwargs)
            except TypeError as error:
                mon.expect(kind == 'none', 'bind-refused-valid',
                           f'{witness}: {error!r}')
                continue
            except Exception as error:
                mon.violation('bind-error', f'{witness}: {error!r}')
                continue
            if not mon.expect(kind != 'none', 'bind-accepted-invalid',
                              f'{witness}: {result}'):
                continue
            expected = [p.bind(*args, **kwargs) for p in survivors]
            if any(a == b for i, a in enumerate(expected)
                   for b in expected[:i]):
                mon.event('survivors equal after binding')
            if kind == 'one':
                mon.expect(type(result) is base.PlainSignature
                           and result == expected[0]
                           and result.returns is survivors[0].returns,
                           'bind-single-survivor', f'{witness}: {result}')
            else:
                mon.expect(type(result) is base.OverloadedSignature
                           and len(result.signatures) == len(expected)
                           and all(map(lambda a, b: a == b
                                       and a.returns is b.returns,
                                       result.signatures, expected)),
                           'bind-survivors',
                           lambda: f'{witness}: {result}, expected '
                                   f'{expected}')
            mon.expect(all(map(lambda a, b: a is b, signature.signatures,
                               plains)), 'mutated', witness)


def variation(params, rng):
    if not params or rng.random() < .2:
        return params
    i = rng.randrange(len(params))
    old = params[i]
    kind = rng.random()
    if kind < .5:
        new = [gen.Param(old.kind, old.name, old.req, old.default, str)]
    elif kind < .7:
        new = [gen.Param(old.kind, old.name, old.req, -1, old.annotation)]
    elif kind < .85:
        new = [gen.Param(old.kind, 'other', old.req, old.default,
                         old.annotation)]
    else:
        new = []
    return params[:i] + new + params[i + 1:]


def constructions(mon, base, rng):
    plains = [gen.plain(gen.random_list(rng), base) for _ in range(4)]
    overloaded = base.OverloadedSignature(*plains[:2])
    for arguments, error in [
        ((), ValueError), ((plains[0],), ValueError),
        ((overloaded, plains[0]), TypeError),
        ((plains[0], overloaded), TypeError),
        ((plains[0], None), TypeError), ((1, 2), TypeError),
        ((plains[0], plains[1], overloaded), TypeError),
        ((plains[0], plains[0].parameters), TypeError),
    ]:
        try:
            base.OverloadedSignature(*arguments)
        except error:
            mon.event('illegal construction refused')
        except Exception as other:
            mon.violation('construction-wrong-exception',
                          f'{arguments}: {other!r}')
        else:
            mon.violation('construction-accepted-illegal', arguments)
    for n in range(2, 5):
        try:
            base.OverloadedSignature(*plains[:n])
        except Exception as error:
            mon.violation('construction-refused-legal', f'{n}: {error!r}')
