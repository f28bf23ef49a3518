"""hash() against ==."""
import copy
import random

from vlib import values

RULE = ('case = value from pools of related parameters / signatures built '
        'afresh in random spellings (distinct type variables, unions in '
        'other order, unhashable defaults); all pairs that the library calls '
        'equal or the canonical form calls equal must agree in hash; sets '
        'and dicts must keep one key per class; non-trivial = value with at '
        'least one equal partner that is another object')
MINIMUM = {'equal pairs hashed': 3000, 'sets': 50,
           'unhashable default hashed': 100}
POOLS = {'quick': 240, 'thorough': 2400}


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    rng = random.Random(f'P07{seed}/{shard}')
    for index in range(POOLS[tier] // shards):
        specs = (values.pool(rng, 40) if index % 3 else
                 values.family(rng) + values.family(rng))
        canons = [s.canon() for s in specs]
        objects = [s.build(base, rng) for s in specs]
        hashes = []
        for o, c in zip(objects, canons):
            try:
                h = hash(o)
            except Exception as error:
                mon.violation('raises', f'hash({o!r}): {error!r}')
                h = None
            if 'dlist' in c or 'opaque' in c or 'dset' in c or 'ddict' in c:
                mon.event('unhashable default hashed')
            hashes.append(h)
        groups = {}
        for i, left in enumerate(objects):
            groups.setdefault(canons[i], []).append(i)
            partner = False
            for j in range(i):
                right = objects[j]
                try:
                    equal = left == right
                except Exception:
                    equal = False
                if equal or canons[i] == canons[j]:
                    partner = True
                    mon.event('equal pairs hashed')
                    mon.expect(hashes[i] == hashes[j], 'hash-differs',
                               lambda: f'{left!r} and {right!r} are equal, '
                                       f'hashes {hashes[i]}, {hashes[j]}')
            mon.case(canons[i], nontrivial=partner)
        # stability, and sets / dicts as users see them
        for o, h in zip(objects, hashes):
            if h is not None:
                mon.expect(hash(o) == h, 'unstable', repr(o))
                repr(o), str(o), o == objects[0]
                if hasattr(o, 'bind'):
                    o.expects(), o.all_set(1)
                    try:
                        o.bind(1)
                    except TypeError:
                        pass
                mon.expect(hash(o) == h and hash(copy.copy(o)) == h,
                           'unstable', repr(o))
        if None not in hashes:
            mon.event('sets')
            try:
                found = len(set(objects))
                table = {o: c for o, c in zip(objects, canons)}
                wrong = [c for o, c in zip(objects, canons)
                         if table.get(o) != c]
            except Exception as error:
                mon.violation('set-raises', repr(error))
                continue
            mon.expect(found == len(groups) and not wrong, 'set-size',
                       lambda: f'{found} keys, {len(groups)} classes, '
                               f'wrong lookups {wrong[:2]}')
