"""Workload of P01 / P02: every small parameter list x every call shape, and
random large ones, judged by CPython's own argument binding."""
import itertools
import random
import zlib

from vlib import gen
from vlib.calls import Callee
from vlib.hostile import ODD, odd_arguments

LENGTH = {'quick': 5, 'thorough': 6}
RANDOM = {'quick': 4000, 'thorough': 60000}
OVERLOADED = {'quick': 1500, 'thorough': 20000}


def judge(mon, pid, operation, oracle, signature, params, nargs, kw, value,
          where):
    args = tuple(itertools.islice(value, nargs))
    kwargs = dict(zip(kw, value))
    expected = oracle(args, kwargs)
    try:
        actual = getattr(signature, operation)(*args, **kwargs)
    except BaseException as error:
        actual = f'{type(error).__name__}: {str(error)[:80]!r}'
    mon.event(f'{operation}={expected}')
    mon.event(where)
    if actual is not expected:
        mon.violation(
                f'{where}:{operation}:expected-{expected}-got-'
                f'{actual if isinstance(actual, bool) else "error"}',
                f'({gen.shape(params)}) called with {nargs} positional and '
                f'keywords {kw}: {operation} gave {actual}, the interpreter '
                f'says {expected}')


def run(mon, operation, oracle_name, *, pid, tier, seed, shard, shards):
    from paradigm import base
    rng = random.Random(f'{pid}{seed}/{shard}')
    odd = odd_arguments(rng)

    def one(params, calls, where, signature=None,
            value=itertools.repeat(0)):
        callee = Callee(params)
        oracle = getattr(callee, oracle_name)
        if signature is None:
            signature = gen.plain(params, base)
        elif callable(signature):
            signature = signature(callee.function)
        for nargs, kw in calls:
            judge(mon, pid, operation, oracle, signature, params, nargs, kw,
                  value, where)
            mon.case((gen.shape(params), nargs, kw),
                     nontrivial=bool(params and (nargs or kw)))

    # every small list, every call shape
    lists = gen.all_lists(LENGTH[tier])
    for i, params in enumerate(lists):
        if i % shards == shard:
            one(params, gen.all_calls(params), 'small-list')
    # large random lists with hostile names
    for _ in range(RANDOM[tier] // shards):
        params = gen.random_list(rng, default=lambda r: r.choice(ODD))
        calls = {gen.random_call(rng, params) for _ in range(25)}
        one(params, sorted(calls), 'random-list', value=odd)
        if rng.random() < .3:
            try:
                one(params, sorted(calls), 'introspected',
                    signature=base.signature_from_callable, value=odd)
            except Exception as error:
                mon.violation('introspected:error',
                              f'({gen.shape(params)}): {error!r}')
    # overloads
    for _ in range(OVERLOADED[tier] // shards):
        lists = [gen.random_list(rng, max_length=5)
                 for _ in range(rng.randrange(2, 5))]
        callees = [Callee(p) for p in lists]
        signature = base.OverloadedSignature(*[gen.plain(p, base)
                                               for p in lists])
        joined = list(itertools.chain.from_iterable(lists))
        calls = {gen.random_call(rng, rng.choice(lists)) for _ in range(20)}
        for nargs, kw in sorted(calls):
            judge(mon, pid, operation,
                  lambda a, k: any([getattr(c, oracle_name)(a, k)
                                    for c in callees]),
                  signature, joined, nargs, kw, odd, 'overloaded')
            mon.case((tuple(map(gen.shape, lists)), nargs, kw),
                     nontrivial=bool(nargs or kw))
