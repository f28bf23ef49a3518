"""bind() against real partial application."""
import functools
import itertools
import random

from vlib import gen, twins
from vlib.calls import Callee
from vlib.hostile import ODD, UNTOUCHABLE, odd_arguments

RULE = ('case = (parameter list, bound positionals and keywords, follow-up '
        'call): every legal list up to length 3 (4 thorough) x every bind x '
        'every follow-up, and seeded random lists, binds and chains of '
        'binds; oracle: completability of the call for success, the real '
        'functools.partial for the residual; non-trivial = something is '
        'bound')
MINIMUM = {'bound': 5000, 'refused': 3000, 'follow-up accepted': 3000,
           'follow-up refused': 5000, 'two-step': 300, 'twin': 300}
TWINS = {'quick': 2000, 'thorough': 40000}
LENGTH = {'quick': 3, 'thorough': 4}
RANDOM = {'quick': 4000, 'thorough': 50000}


class Value:
    """distinguishable values"""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f'<{self.tag}>'


def some(tag):
    return lambda rng: rng.choice(ODD) if rng.random() < .3 else Value(tag)


def try_bind(signature, args, kwargs):
    try:
        return signature.bind(*args, **kwargs)
    except TypeError as error:
        return error
    except BaseException as error:
        return error


def is_variadic(p):
    return p.kind in (gen.VP, gen.VK)


def check_structure(mon, base, params, signature, residual, nargs, kwargs,
                    where, witness):
    """which parameters remain and what they look like"""
    positional = [p for p in params if p.kind in (gen.PO, gen.PK)]
    gone = {p.name for p in positional[:nargs]}
    originals = {p.name: (p, s) for p, s in zip(params,
                                                signature.parameters)}
    remaining = list(residual.parameters)
    names = [p.name for p in remaining]
    expected = [p.name for p in params if p.name not in gone]
    # a keyword-bound positional makes *args unreachable
    bound_positional = any(p.kind == gen.PK and p.name in kwargs
                           for p in positional[nargs:])
    if bound_positional:
        expected = [n for n in expected
                    if originals[n][0].kind != gen.VP]
    mon.expect(names == expected, f'{where}:residual-names',
               lambda: f'{witness}: remaining {names}, expected {expected}')
    accepting = {p.name for p in params if p.kind in (gen.PK, gen.KO)} - gone
    for r in remaining:
        if r.name not in originals:
            continue
        p, s = originals[r.name]
        mon.expect(r.annotation is s.annotation, f'{where}:annotation',
                   lambda: f'{witness}: annotation of {r.name}: {r!r}')
        if p.name in kwargs and p.name in accepting:
            mon.expect(type(r) is base.OptionalParameter and r.has_default
                       and r.default is kwargs[p.name]
                       and r.kind is base.ParameterKind.KEYWORD_ONLY,
                       f'{where}:bound-keyword',
                       lambda: f'{witness}: bound keyword became {r!r}')
        else:
            mon.expect(type(r) is type(s), f'{where}:class',
                       lambda: f'{witness}: {s!r} became {r!r}')
            if type(r) is type(s) is base.OptionalParameter:
                mon.expect(r.has_default is s.has_default
                           and (not r.has_default
                                or r.default is s.default),
                           f'{where}:default-kept',
                           lambda: f'{witness}: {s!r} became {r!r}')
            allowed = ({s.kind, base.ParameterKind.KEYWORD_ONLY}
                       if p.kind == gen.PK and bound_positional
                       else {s.kind})
            mon.expect(r.kind in allowed, f'{where}:kind',
                       lambda: f'{witness}: {s!r} became {r!r}')
    mon.expect(residual.returns is signature.returns, f'{where}:returns',
               lambda: f'{witness}: returns {residual.returns!r}')


def one(mon, base, params, binds, follow_ups, where, rng, hostile=False):
    callee = Callee(params)
    signature = gen.plain(params, base, returns=some('returns')(rng))
    before = [(p.name, p.kind, p.annotation) for p in signature.parameters]
    try:
        identity = signature.bind()
        mon.expect(identity.parameters == signature.parameters
                   and identity == signature, f'{where}:bind()-identity',
                   lambda: f'({gen.shape(params)}).bind() gave {identity}')
    except Exception as error:
        mon.violation(f'{where}:bind()-identity',
                      f'({gen.shape(params)}).bind() raised {error!r}')
    has_vk = any(p.kind == gen.VK for p in params)
    for nargs, kw in binds:
        args = tuple(UNTOUCHABLE if hostile else Value(i)
                     for i in range(nargs))
        kwargs = {n: rng.choice(ODD) if rng.random() < .3 else Value(n)
                  for n in kw}
        if rng.random() < .2:
            args = tuple(itertools.islice(odd_arguments(rng), nargs))
        given = dict(kwargs)
        witness = (f'({gen.shape(params)}) bound with {nargs} positional and '
                   f'keywords {kw}')
        expected = callee.completable(args, kwargs)
        residual = try_bind(signature, args, kwargs)
        mon.case((gen.shape(params), nargs, kw),
                 nontrivial=bool(nargs or kw))
        if kwargs != given:
            mon.violation(f'{where}:arguments-mutated', witness)
        if isinstance(residual, BaseException):
            mon.event('refused')
            mon.expect(isinstance(residual, TypeError),
                       f'{where}:wrong-exception',
                       lambda: f'{witness}: {residual!r}')
            mon.expect(not expected, f'{where}:refused-valid',
                       lambda: f'{witness}: {residual!r}')
            continue
        mon.event('bound')
        if not mon.expect(expected, f'{where}:accepted-invalid',
                          lambda: f'{witness}: gave {residual}'):
            continue
        if not mon.expect(type(residual) is base.PlainSignature,
                          f'{where}:result-class',
                          lambda: f'{witness}: {residual!r}'):
            continue
        check_structure(mon, base, params, signature, residual, nargs,
                        kwargs, where, witness)
        partial = functools.partial(callee.function, *args, **kwargs)
        positional = [p for p in params if p.kind in (gen.PO, gen.PK)]
        lost = {p.name for p in positional[:nargs]
                if p.kind == gen.PK} if has_vk else set()
        for nargs2, kw2 in follow_ups(nargs, kw):
            if lost.intersection(kw2):
                continue
            args2, kwargs2 = (0,) * nargs2, dict.fromkeys(kw2, 0)
            accepted = gen.binds(partial, args2, kwargs2)
            mon.event('follow-up accepted' if accepted
                      else 'follow-up refused')
            mon.evaluations += 1
            try:
                actual = residual.all_set(*args2, **kwargs2)
            except Exception as error:
                actual = repr(error)
            mon.expect(actual is accepted,
                       f'{where}:residual-all_set-expected-{accepted}',
                       lambda: f'{witness} then called with {nargs2} '
                               f'positional and {kw2}: all_set {actual}, '
                               f'partial {accepted}; residual {residual}')
            # binding in two steps equals binding at once
            step = try_bind(residual, args2, kwargs2)
            if isinstance(step, TypeError):
                continue
            if isinstance(step, BaseException):
                mon.violation(f'{where}:two-step-error',
                              f'{witness} then {nargs2}, {kw2}: {step!r}')
                continue
            if not set(kw2).intersection(kw):
                once = try_bind(signature, args + args2,
                                {**kwargs, **kwargs2})
                mon.event('two-step')
                mon.expect(not isinstance(once, BaseException)
                           and once == step, f'{where}:two-step',
                           lambda: f'{witness} then {nargs2}, {kw2}: '
                                   f'{step} but at once {once}')
    after = [(p.name, p.kind, p.annotation) for p in signature.parameters]
    mon.expect(before == after, f'{where}:signature-mutated',
               gen.shape(params))


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    rng = random.Random(f'P03{seed}/{shard}')
    twins.bindings(mon, base, rng, TWINS[tier] // shards, overloaded=False)
    for i, params in enumerate(gen.all_lists(LENGTH[tier])):
        if i % shards == shard:
            calls = list(gen.all_calls(params))
            one(mon, base, params, calls, lambda n, k: calls, 'small-list',
                rng)
    for _ in range(RANDOM[tier] // shards):
        params = gen.random_list(rng, default=some('default'),
                                 annotation=some('annotation'))
        binds = sorted({gen.random_call(rng, params) for _ in range(8)})
        has_vp = any(p.kind == gen.VP for p in params)

        def follow_ups(nargs, kw):
            result = set()
            for _ in range(8):
                n, k = gen.random_call(rng, params)
                if rng.random() < .7:
                    n = max(0, n - nargs) + (has_vp and rng.random() < .3)
                    k = tuple(name for name in k if name not in kw)
                result.add((n, k))
            return sorted(result)

        one(mon, base, params, binds, follow_ups, 'random-list', rng,
            hostile=rng.random() < .5)
