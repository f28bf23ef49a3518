"""Histories of operations on shared signatures; nothing changes."""
import contextlib
import copy
import functools
import pickle
import random

from vlib import annotations as an
from vlib import dump, gen, structure

RULE = ('case = (operation, text of its operand, outcome) in generated '
        'histories over a pool of shared signatures and parameters (made by '
        'constructors with mutable defaults / annotations, obtained for '
        'user and standard library callables, results of earlier binds, '
        'copies and unpickled ones); after each operation its operands, '
        'and after each history the whole pool, are compared with snapshots '
        'made when they were obtained (kinds, names, identities of '
        'annotations and defaults and their contents, order, text, hash, '
        'answers to fixed calls), and given arguments with their copies; '
        'assignments and deletions of each public attribute must fail')
MINIMUM = {'operation': 60000, 'operand compared': 60000,
           'pool compared': 8000, 'attribute guarded': 10000,
           'arguments compared': 10000, 'bound': 1500, 'partial': 300}
HISTORIES = {'quick': 20, 'thorough': 300}
LENGTH = 500
CALLS = [((), {}), ((1,), {}), ((1, 2), {}), ((1, 2, 3, 4, 5), {}),
         ((), {'a': 1}), ((1,), {'x': 1, 'key': 2}),
         ((1, 2), {'function': 1, 'zz': 2})]


class Mutable:
    """default that shows each change"""

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Mutable) and self.value == other.value

    def __hash__(self):
        return hash('Mutable')

    def __repr__(self):
        return f'Mutable({self.value!r})'


def contents(value, depth=0):
    """identity and, as far as it is possible, state of object"""
    result = [id(value), type(value).__name__]
    if depth < 4:
        if isinstance(value, (list, tuple)):
            result.append([contents(v, depth + 1) for v in value])
        elif isinstance(value, dict):
            result.append([(contents(k, depth + 1), contents(v, depth + 1))
                           for k, v in value.items()])
        elif isinstance(value, (set, frozenset)):
            result.append(sorted(map(id, value)))
        elif isinstance(value, Mutable):
            result.append(contents(value.value, depth + 1))
        elif isinstance(value, (bytearray,)):
            result.append(bytes(value))
    return result


def is_parameter(value):
    return hasattr(value, 'kind')


def snapshot(value):
    """everything observable of a parameter or signature"""
    if is_parameter(value):
        result = [type(value), id(value), value.kind, value.name,
                  contents(value.annotation),
                  getattr(value, 'has_default', None)]
        if result[-1]:
            result.append(contents(value.default))
        result += [str(value), repr(value), hash(value),
                   structure.parameter(value, ordered=True)]
        return result
    if hasattr(value, 'signatures'):
        parts = [value.signatures, list(map(snapshot, value.signatures))]
    else:
        parts = [contents(value.returns), type(value.parameters),
                 list(map(snapshot, value.parameters))]
    return [type(value), id(value), *parts, str(value), repr(value),
            hash(value),
            [(value.all_set(*a, **k), value.expects(*a, **k))
             for a, k in CALLS]]


class Partial(functools.partial):
    pass


class Pool:
    def __init__(self, mon, rnd):
        self.mon, self.rnd = mon, rnd
        self.items, self.snapshots = [], []

    def add(self, value):
        self.items.append(value)
        self.snapshots.append(snapshot(value))

    def pick(self):
        i = self.rnd.randrange(len(self.items))
        return i, self.items[i]

    def check(self, i, after, event='operand compared'):
        self.mon.event(event)
        now = snapshot(self.items[i])
        before = self.snapshots[i]
        if now != before:
            where = next((f'{x!r:.600} became {y!r:.600}'
                          for x, y in zip(before, now) if x != y), 'size')
            self.mon.violation(f'changed:{after}',
                               f'after {after}: {self.items[i]!r:.500}\n'
                               f'{where}')
            self.snapshots[i] = now
            return False
        return True


def fill(pool, base, rnd, callables):
    """signatures of all kinds of origin"""

    def default(rng):
        return rng.choice([
            [1, [2]], {'a': [1]}, Mutable([1]), {1, 2}, bytearray(b'x'),
            (1, [2]), 5, None, 'text', 
            an.build_default(an.random_default(rng), rng)])

    def annotation(rng):
        return rng.choice([int, [int, str], 'name', None, list[int],
                           an.build(an.annotation(rng), rng)])

    made = []
    for _ in range(8):
        params = gen.random_list(rnd, annotation=annotation, default=default)
        made.append(gen.plain(params, base, returns=annotation(rnd)))
    for _ in range(3):
        parts = rnd.sample(made, rnd.randrange(2, 4))
        with contextlib.suppress(ValueError, TypeError):
            made.append(base.OverloadedSignature(*parts))
    for value in made:
        pool.add(value)
    for signature in made[:4]:
        for parameter in signature.parameters[:2]:
            pool.add(parameter)
    for key in rnd.sample(sorted(callables), 14):
        try:
            signature = base.signature_from_callable(callables[key])
        except (TypeError, ValueError):
            continue
        pool.add(signature)
        if hasattr(signature, 'parameters') and signature.parameters:
            pool.add(rnd.choice(signature.parameters))


def public_attributes(value):
    return [name for name in dir(value) if not name.startswith('_')]


def operations(pool, base, rnd, callables):
    mon = pool.mon

    def arguments(value):
        names = ['zz', 'x', 'a', 'b', 'key', 'self', 'function']
        parts = getattr(value, 'signatures', [value])
        part = rnd.choice(list(parts))
        if hasattr(part, 'parameters'):
            names += [p.name for p in part.parameters] * 2
        objects = [[1], {'a': [1]}, Mutable([0]), 1, None, 'text', {3},
                   bytearray(b'y')]
        args = [rnd.choice(objects) for _ in range(rnd.choice([0, 0, 1, 1, 2,
                                                               3, 5]))]
        kwargs = {rnd.choice(names): rnd.choice(objects)
                  for _ in range(rnd.choice([0, 0, 1, 1, 2, 3]))}
        return args, kwargs

    def calling(name):
        def operation():
            i, value = pool.pick()
            if is_parameter(value):
                return [i], 'parameter', 'skipped'
            args, kwargs = arguments(value)
            before = contents(args), contents(kwargs)
            try:
                result = getattr(value, name)(*args, **kwargs)
            except TypeError:
                outcome = 'TypeError'
            else:
                outcome = (repr(result) if isinstance(result, bool)
                           else type(result).__name__)
                if not isinstance(result, bool):
                    mon.event('bound')
                    if len(pool.items) < 90:
                        pool.add(result)
            mon.event('arguments compared')
            mon.expect((contents(args), contents(kwargs)) == before,
                       f'arguments:{name}',
                       lambda: f'{value!r:.500}: {before} became {args}, '
                               f'{kwargs}')
            return [i], type(value).__name__, outcome

        return operation

    def comparison():
        i, left = pool.pick()
        j, right = pool.pick()
        outcome = left == right, left != right
        return [i, j], type(left).__name__, outcome

    def odd_comparison():
        i, left = pool.pick()
        other = rnd.choice([None, 1, 'text', [], object(), int, Mutable(1)])
        return [i], type(left).__name__, (left == other, other != left)

    def unary(name, function):
        def operation():
            i, value = pool.pick()
            with contextlib.suppress(AttributeError, TypeError, ValueError,
                                     RecursionError, pickle.PicklingError):
                result = function(value)
                if name in ('copy', 'deepcopy', 'pickle') and len(
                        pool.items) < 90:
                    pool.add(result)
            return [i], type(value).__name__, name

        return operation

    def request():
        key = rnd.choice(sorted(callables))
        with contextlib.suppress(TypeError, ValueError):
            pool.add(base.signature_from_callable(callables[key])
                     ) if len(pool.items) < 90 else \
                base.signature_from_callable(callables[key])
        i, value = pool.pick()
        return [i], 'request', ''

    def container():
        i, left = pool.pick()
        j, right = pool.pick()
        {left: 1, right: 2}, {left, right}, [left, right].index(right)
        return [i, j], type(left).__name__, ''

    def overload():
        picked = [pool.pick() for _ in range(rnd.randrange(2, 4))]
        signatures = [v for _, v in picked if not is_parameter(v)]
        given = list(signatures)
        with contextlib.suppress(TypeError, ValueError, AssertionError):
            result = base.OverloadedSignature(*given)
            if len(pool.items) < 90:
                pool.add(result)
        mon.expect(given == signatures, 'arguments:overloaded', 'list')
        return [i for i, _ in picked], 'overloaded', len(signatures)

    def rebuild():
        """parameters shared with a new signature"""
        i, value = pool.pick()
        if hasattr(value, 'parameters'):
            parameters = list(value.parameters)
            result = base.PlainSignature(*parameters, returns=value.returns)
            parameters.clear()
            if len(pool.items) < 90:
                pool.add(result)
        return [i], type(value).__name__, 'rebuild'

    def sequences():
        """what is returned is not a door to the inside"""
        i, value = pool.pick()
        for name in ('parameters', 'signatures'):
            sequence = getattr(value, name, None)
            if sequence is None:
                continue
            for action in (lambda s: s.append(1), lambda s: s.clear(),
                           lambda s: s.pop(), lambda s: s.reverse(),
                           lambda s: s.__setitem__(0, 1),
                           lambda s: s.__delitem__(0)):
                with contextlib.suppress(AttributeError, TypeError,
                                         IndexError):
                    action(sequence)
        return [i], type(value).__name__, 'sequence'

    def guarded():
        i, value = pool.pick()
        name = rnd.choice(public_attributes(value))
        mon.event('attribute guarded')
        _, other = pool.pick()
        for way, action in [
            ('setattr', lambda: setattr(value, name, rnd.choice(
                    [None, 1, getattr(other, name, ()),
                     getattr(value, name, None)]))),
            ('delattr', lambda: delattr(value, name)),
        ]:
            try:
                action()
            except (AttributeError, TypeError):
                continue
            mon.violation(f'{way}:{type(value).__name__}.{name}',
                          f'{value!r:.500}')
        return [i], type(value).__name__, name

    def nested():
        """chain of partials, some of which have attributes"""
        value = rnd.choice(list(user.values()))
        chain = []
        for _ in range(rnd.randrange(1, 5)):
            args, kwargs = arguments(pool.pick()[1])
            style = rnd.random()
            if style < .4:
                args = []
            elif style < .7:
                kwargs = {}
            if not callable(value):
                break
            value = rnd.choice((functools.partial, functools.partial,
                                Partial))(value, *args[:2], **kwargs)
            if rnd.random() < .5:
                value.attribute = [1]
            chain.append(value)
        return chain

    def partial():
        chain = nested()
        before = [(id(v.func), contents(v.args), contents(v.keywords),
                   contents(vars(v))) for v in chain]
        with contextlib.suppress(TypeError, ValueError):
            result = base.signature_from_callable(chain[-1])
            if len(pool.items) < 90:
                pool.add(result)
                mon.event('partial')
        after = [(id(v.func), contents(v.args), contents(v.keywords),
                  contents(vars(v))) for v in chain]
        mon.event('arguments compared')
        mon.expect(before == after, 'arguments:partial',
                   lambda: f'{chain[-1]!r:.500}: {before} became {after}')
        # later changes of what was given are nothing to signatures
        for v in chain:
            v.keywords.update(zz=1, d=Mutable([2]))
            vars(v).clear()
        return latest('partial')

    def function():
        def given(a, b=[1], *args: 'x', c: int, d: list = {'a': 1}, **kwargs):
            pass

        given.__kwdefaults__.update(
                {n: default for n, default in [('c', [2]), ('d', {3})]
                 if rnd.random() < .5})
        given.extra = [1]
        if rnd.random() < .3:
            class Given:
                attribute = [1]
                __init__ = given

            target = Given
        elif rnd.random() < .5:
            target = given.__get__(Mutable([1]))
        else:
            target = given

        def state():
            return [contents(given.__defaults__),
                    contents(given.__kwdefaults__),
                    contents(given.__annotations__), contents(vars(given)),
                    id(given.__code__), given.__name__, given.__module__,
                    given.__qualname__, contents(dict(vars(target)))[1:]
                    if isinstance(target, type) else id(target)]

        before = state()
        result = base.signature_from_callable(target)
        if len(pool.items) < 90:
            pool.add(result)
        after = state()
        mon.event('arguments compared')
        mon.expect(before == after, 'arguments:function',
                   lambda: f'{[(x, y) for x, y in zip(before, after) if x != y]}'[:3000])
        given.__kwdefaults__.clear()
        given.__annotations__.clear()
        given.__annotations__['a'] = str
        given.__defaults__ = (1, 2)
        given.__qualname__ = given.__name__ = 'other'
        return latest('function')

    def latest(label):
        i = len(pool.items) - 1
        return [i, pool.pick()[0]], label, ''

    user = {k: v for k, v in callables.items() if k.startswith('user:')}

    return [
        ('expects', calling('expects'), 4), ('all_set', calling('all_set'), 4),
        ('bind', calling('bind'), 6), ('==', comparison, 4),
        ('== other', odd_comparison, 1),
        ('hash', unary('hash', hash), 1), ('str', unary('str', str), 1),
        ('repr', unary('repr', repr), 1),
        ('copy', unary('copy', copy.copy), 1),
        ('deepcopy', unary('deepcopy', copy.deepcopy), 1),
        ('pickle', unary('pickle', lambda v: pickle.loads(pickle.dumps(v))),
         1),
        ('format', unary('format', lambda v: f'{v} {v!r}'), 1),
        ('dir', unary('dir', dir), 1),
        ('request', request, 2), ('container', container, 1),
        ('overload', overload, 1), ('rebuild', rebuild, 1),
        ('sequences', sequences, 1), ('guarded', guarded, 8),
        ('partial', partial, 3), ('function', function, 1),
    ]


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    callables = {**dump.listing(0, .03), **dump.user_callables()}
    for history in range(HISTORIES[tier]):
        rnd = random.Random(f'{seed} {shard} {history}')
        pool = Pool(mon, rnd)
        fill(pool, base, rnd, callables)
        choices = operations(pool, base, rnd, callables)
        names, actions, weights = zip(*choices)
        for _ in range(LENGTH):
            name, action = rnd.choices(list(zip(names, actions)), weights)[0]
            operands, kind, outcome = action()
            mon.event('operation')
            mon.case((name, kind, str(outcome),
                      pool.snapshots[operands[0]][-3 if is_parameter(
                              pool.items[operands[0]]) else -4]))
            for i in operands:
                pool.check(i, name)
        for i in range(len(pool.items)):
            pool.check(i, 'history', 'pool compared')
