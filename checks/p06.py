"""Equality against an independent canonical form, over pools of related
values: agreement with the canonical form on all ordered pairs implies
reflexivity, symmetry and transitivity."""
import random

from vlib import values

RULE = ('case = ordered pair of values (parameter / plain / overloaded '
        'signature) from a pool of seeds and chains of single mutations, '
        'each value built afresh in random spellings; oracle: equality of '
        'canonical forms of the trees they were built from; non-trivial = '
        'pair of related values (same class), distinct by canonical forms')
MINIMUM = {'equal pairs': 5000, 'unequal pairs': 5000,
           'equal, distinct spelling objects': 3000, 'family': 100}
ASSUMPTIONS = ['defaults compare to booleans and are equal to themselves',
               'numbers are equal as Python compares them (1 == True)']
POOLS = {'quick': 400, 'thorough': 8000}
STRANGERS = (None, 0, 'a', (), object(), int, NotImplemented)


class Opinionated:
    """comparable with everything, e.g. unittest.mock.ANY"""

    def __init__(self, answer):
        self.answer = answer

    def __eq__(self, other):
        return self.answer

    def __ne__(self, other):
        return self.answer

    __hash__ = None


OPINIONATED = [Opinionated(answer) for answer in (True, False, 'whatever')]


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    rng = random.Random(f'P06{seed}/{shard}')
    for index in range(POOLS[tier] // shards):
        systematic = index % 2
        specs = values.family(rng) if systematic else values.pool(rng, 40)
        if systematic:
            mon.event('family')
        canons = [s.canon() for s in specs]
        objects = []
        for s in specs:
            objects.append(s.build(base, rng))
        for i, left in enumerate(objects):
            for j, right in enumerate(objects):
                expected = canons[i] == canons[j]
                try:
                    eq, ne = left == right, left != right
                except Exception as error:
                    mon.violation(
                            f'raises:{type(error).__name__}',
                            f'{canons[i]} == {canons[j]}: {error!r}')
                    continue
                mon.event('equal pairs' if expected else 'unequal pairs')
                if expected and i != j:
                    mon.event('equal, distinct spelling objects')
                mon.case((canons[i], canons[j]),
                         nontrivial=type(left) is type(right))
                mon.expect(eq is expected, f'expected-{expected}',
                           lambda: f'{left!r} == {right!r} is {eq}; '
                                   f'canonical forms {canons[i]} and '
                                   f'{canons[j]}')
                mon.expect(ne is (not eq), 'ne-is-not-negation',
                           lambda: f'{left!r} != {right!r} is {ne}')
            for stranger in STRANGERS:
                mon.evaluations += 1
                mon.expect((left == stranger) is False
                           and (stranger == left) is False
                           and (left != stranger) is True, 'stranger',
                           lambda: f'{left!r} == {stranger!r}')
            for stranger in OPINIONATED:
                # other types decide whether they are equal to ours
                mon.event('opinionated stranger')
                mon.expect((left == stranger) is stranger.answer
                           and (stranger == left) is stranger.answer
                           and (left != stranger) is stranger.answer,
                           'opinionated stranger',
                           lambda: f'{left!r} == {stranger.answer!r}')
