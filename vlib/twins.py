"""Values that are equal to each other, but tell themselves apart: whatever is
remembered for one of them must not be given for another."""
import copy
import functools
import inspect
import json
import pickle
import re

from vlib import gen


class Twin:
    __slots__ = 'number',

    def __init__(self, number):
        self.number = number

    def __eq__(self, other):
        return isinstance(other, Twin)

    def __hash__(self):
        return 7

    def __repr__(self):
        return f'Twin({self.number})'

    def __reduce__(self):
        return Twin, (self.number,)

    # annotations have to be callable for some versions of Python
    def __call__(self):
        raise TypeError


class Source:
    def __init__(self):
        self.count = 0

    def __call__(self):
        self.count += 1
        return Twin(self.count)


def numbers_in(text):
    return [int(x) for x in re.findall(r'Twin\((\d+)\)', text)]


def numbers_of(value):
    if hasattr(value, 'signatures'):
        return sum(map(numbers_of, value.signatures), [])
    if hasattr(value, 'parameters'):
        return (sum(map(numbers_of, value.parameters), [])
                + numbers_in(repr(value.returns)))
    return numbers_in(repr(value.annotation)
                      + (repr(value.default)
                         if getattr(value, 'has_default', False) else ''))


def build(base, shapes, new):
    built = []
    for shape in shapes:
        parameters = []
        for p in shape:
            kind = base.ParameterKind[gen.KINDS[p.kind]]
            if p.req == 'r' and p.kind not in (gen.VP, gen.VK):
                parameters.append(base.RequiredParameter(
                        annotation=new(), kind=kind, name=p.name))
            else:
                extra = ({'default': new()}
                         if p.req == 'd' and p.kind not in (gen.VP, gen.VK)
                         else {})
                parameters.append(base.OptionalParameter(
                        annotation=new(), kind=kind, name=p.name, **extra))
        built.append(base.PlainSignature(*parameters, returns=new()))
    return (built[0] if len(built) == 1
            else base.OverloadedSignature(*built))


def families(base, rng, count):
    """signatures of the same shape with contents equal but not the same"""
    new = Source()
    for _ in range(count):
        shapes = [gen.random_list(rng, max_length=5)
                  for _ in range(rng.choice((1, 1, 2, 3)))]
        family = [build(base, shapes, new) for _ in range(3)]
        yield family + rng.sample(family, 2)


def texts(mon, base, rng, way, count):
    for family in families(base, rng, count):
        for signature in family:
            values = [signature]
            if not hasattr(signature, 'signatures'):
                values += signature.parameters
            for value in values:
                mon.event('twin')
                text = way(value)
                expected = numbers_of(value)
                mon.expect(numbers_in(text) == expected, 'twin:text',
                           lambda: f'{text} after texts of equal values, '
                                   f'expected {expected}')


COPIES = (copy.copy, copy.deepcopy,
          *[lambda v, p=p: pickle.loads(pickle.dumps(v, p))
            for p in range(2, pickle.HIGHEST_PROTOCOL + 1)])


def copies(mon, base, rng, count):
    for family in families(base, rng, count):
        for signature in family:
            mon.event('twin')
            expected = numbers_of(signature)
            got = numbers_of(rng.choice(COPIES)(signature))
            mon.expect(got == expected, 'twin:copy',
                       lambda: f'copy of {signature!r} after copies of equal '
                               f'values has {got}')


def bindings(mon, base, rng, count, *, overloaded):
    values = Source()
    values.count = 10 ** 6
    for family in families(base, rng, count):
        if hasattr(family[0], 'signatures') is not overloaded:
            continue
        plain = getattr(family[0], 'signatures', family)[0]
        args_count = rng.randrange(0, 3)
        names = [p.name for p in plain.parameters if rng.random() < .4]
        for signature in family:
            args = [values() for _ in range(args_count)]
            kwargs = {name: values() for name in names}
            candidates = [s for s in getattr(signature, 'signatures',
                                             [signature])
                          if s.expects(*args, **kwargs)]
            if not candidates:
                continue
            mon.event('twin')
            result = signature.bind(*args, **kwargs)
            results = getattr(result, 'signatures', [result])
            label = f'{signature!r} bound to {args} {kwargs} gave {result!r}'
            if not mon.expect(len(results) == len(candidates), 'twin:count',
                              label):
                continue
            for s, r in zip(candidates, results):
                mon.expect(s.returns is r.returns, 'twin:returns', label)
                known = {p.name: p for p in s.parameters}
                for p in r.parameters:
                    was = known[p.name]
                    mon.expect(p.annotation is was.annotation,
                               'twin:annotation', label)
                    default = (kwargs[p.name]
                               if (p.name in kwargs
                                   and p.kind.name == 'KEYWORD_ONLY')
                               else getattr(was, 'default', None)
                               if getattr(was, 'has_default', False)
                               else None)
                    mon.expect((p.default if getattr(p, 'has_default', False)
                                else None) is default, 'twin:default', label)


def callables(rng, new):
    """(label, callable, expected defaults by names)"""
    def defaults_of(function):
        return {p.name: p.default
                for p in inspect.signature(function).parameters.values()
                if p.default is not p.empty}

    def f(a, b=new(), *, c=new()):
        pass

    def g(self, x, y=new()):
        pass

    yield 'function', f, defaults_of(f)
    yield 'lambda', *(lambda v: (v, defaults_of(v)))(lambda z=new(): z)
    cls = type('C', (), {'__init__': g, 'm': g,
                         's': staticmethod(f), 'c': classmethod(g)})
    for label, value in (('class', cls), ('method', cls(1).m),
                         ('class method', cls.c), ('static method', cls.s)):
        yield label, value, defaults_of(value)
    value = new()
    yield 'partial', functools.partial(f, c=value), {**defaults_of(f),
                                                     'c': value}
    value = new()
    yield ('partial of builtin', functools.partial(sorted, key=value),
           {'key': value})
    yield ('partial of library function',
           functools.partial(json.dumps, indent=value), {'indent': value})
    value = new()
    yield ('partial of builtin class', functools.partial(zip, strict=value),
           {'strict': value})


def requests(mon, base, rng, count):
    """functions that are gone give their addresses to others"""
    new = Source()
    kept = []
    for _ in range(count):
        for label, value, expected in callables(rng, new):
            mon.event('twin')
            got = base.signature_from_callable(value)
            for s in getattr(got, 'signatures', [got]):
                mon.expect(
                        all(p.default is expected.get(p.name, p.default)
                            for p in s.parameters
                            if getattr(p, 'has_default', False))
                        and {p.name for p in s.parameters} >= expected.keys(),
                        'twin:request',
                        lambda: f'{label} with {expected} gave {got!r}')
            if rng.random() < .2:
                kept.append(value)
            elif kept and rng.random() < .5:
                kept.pop(rng.randrange(len(kept)))
