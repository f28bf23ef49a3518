"""Copies and pickles."""
import copy
import io
import os
import pickle
import random
import subprocess
import sys

from vlib import gen, stdlib, twins, values
from vlib.unpickle import describe

RULE = ('case = generated parameter / plain / overloaded signature with '
        'picklable annotations and defaults, or signature of a standard '
        'library callable whose annotations are picklable by themselves; '
        'each is copied, deep-copied, pickled with protocols 2..5 by the C '
        'and the Python pickler, alone and inside a container, and sent '
        'through another process and back; oracle: class, equality, repr, '
        'str and answers to random calls; non-trivial = has parameters')
MINIMUM = {'copied': 500, 'pickled': 2000, 'through another process': 500,
           'standard library': 200, 'twin': 1000}
TWINS = {'quick': 800, 'thorough': 16000}
COUNT = {'quick': 2400, 'thorough': 24000}
STDLIB = {'quick': 2400, 'thorough': 40000}


def picklable(part):
    try:
        for protocol in range(2, pickle.HIGHEST_PROTOCOL + 1):
            for clone in (pickle.loads(pickle.dumps(part, protocol)),
                          copy.deepcopy(part)):
                if (type(clone) is not type(part)
                        or repr(clone) != repr(part)
                        or not (clone == part)):
                    return False
    except Exception:
        return False
    return True


def parts_of(value):
    if hasattr(value, 'signatures'):
        for s in value.signatures:
            yield from parts_of(s)
    elif hasattr(value, 'parameters'):
        yield value.returns
        for p in value.parameters:
            yield from parts_of(p)
    else:
        yield value.annotation
        if getattr(value, 'has_default', False):
            yield value.default


def python_dumps(value, protocol):
    stream = io.BytesIO()
    pickle._Pickler(stream, protocol).dump(value)
    return stream.getvalue()


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    rng = random.Random(f'P08{seed}/{shard}')
    twins.copies(mon, base, rng, TWINS[tier] // shards)
    items = []
    for _ in range(COUNT[tier] // shards):
        spec = values.random_value(rng, pickled=True)
        lists = ([spec.params] if isinstance(spec, values.Sig)
                 else [s.params for s in spec.sigs]
                 if isinstance(spec, values.Over) else [[]])
        calls = [gen.random_call(rng, rng.choice(lists)) for _ in range(6)]
        items.append((spec.build(base, rng), calls, 'generated'))
    paths = sorted(stdlib.walk(stdlib.import_all()).items())
    rng.shuffle(paths)
    for path, value in paths[:STDLIB[tier] // shards]:
        try:
            signature = base.signature_from_callable(value)
        except (TypeError, ValueError):
            continue
        items.append((signature, [(n, ()) for n in range(4)],
                      'standard library'))
    through = []
    for value, calls, origin in items:
        parts = list(parts_of(value))
        if not all(map(picklable, parts)):
            mon.event('skipped: unpicklable parts')
            continue
        mon.event(origin)
        name = type(value).__name__
        try:
            expected = describe(value, calls)
        except Exception as error:
            mon.violation(f'{name}:describe', repr(error))
            continue
        mon.case(expected[1], nontrivial='name=' in expected[1])

        def compare(how, make):
            try:
                clone = make()
                actual = describe(clone, calls)
                fine = (clone == value and value == clone
                        and type(clone) is type(value)
                        and actual == expected
                        and hash(clone) == hash(value))
            except Exception as error:
                mon.violation(f'{how}:{name}:error',
                              f'{expected[1]}: {error!r}')
                return
            mon.expect(fine, f'{how}:{name}',
                       lambda: f'{expected} became {actual}')

        compare('copy', lambda: copy.copy(value))
        compare('deepcopy', lambda: copy.deepcopy(value))
        compare('deepcopy-in-container',
                lambda: copy.deepcopy({'a': [value, value]})['a'][1])
        mon.event('copied')
        for protocol in range(2, pickle.HIGHEST_PROTOCOL + 1):
            compare(f'pickle{protocol}',
                    lambda: pickle.loads(pickle.dumps(value, protocol)))
            mon.event('pickled')
        compare('pickle-python',
                lambda: pickle.loads(python_dumps(value, 2 + len(parts) % 4)))
        compare('pickle-in-container',
                lambda: pickle.loads(pickle.dumps([value, (value,)]))[1][0])
        compare('pickle-of-copy',
                lambda: pickle.loads(pickle.dumps(copy.copy(value))))
        try:
            through.append((value, expected, ([pickle.dumps(p) for p in parts],
                            pickle.dumps(value, 2 + len(parts) % 4), calls)))
        except Exception as error:
            mon.violation(f'pickle:{name}:error', repr(error))
    # another process
    there, back = (os.path.join(os.environ['VERIF_SCRATCH'],
                                f'{shard}.{x}') for x in ('there', 'back'))
    with open(there, 'wb') as f:
        pickle.dump([t for _, _, t in through], f)
    subprocess.run([sys.executable, '-m', 'vlib.unpickle', there, back],
                   check=True)
    with open(back, 'rb') as f:
        answers = pickle.load(f)
    assert len(answers) == len(through)
    for (value, expected, _), (status, *rest) in zip(through, answers):
        name = type(value).__name__
        if status == 'unpicklable':
            mon.event('skipped: parts unpicklable elsewhere')
            continue
        mon.event('through another process')
        mon.evaluations += 1
        if status == 'error':
            mon.violation(f'process:{name}:error', f'{expected[1]}: {rest}')
            continue
        described, pickles = rest
        mon.expect(described == expected, f'process:{name}',
                   lambda: f'{expected} became {described} there')
        for data in pickles:
            try:
                clone = pickle.loads(data)
                mon.expect(clone == value, f'process-back:{name}',
                           lambda: f'{value!r} came back as {clone!r}')
            except Exception as error:
                mon.violation(f'process-back:{name}:error',
                              f'{expected[1]}: {error!r}')
