"""Parameter lists as plain data, with the real Python function for each."""
import itertools

PO, PK, VP, KO, VK = range(5)
KIND_NAMES = ('PO', 'PK', '*', 'KO', '**')
KINDS = ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD', 'VARIADIC_POSITIONAL',
         'KEYWORD_ONLY', 'VARIADIC_KEYWORD')


def kind_of(parameter):
    return KINDS.index(parameter.kind.name)



class Param:
    """req: 'r' required, 'o' optional without known default,
    'd' optional with default"""
    __slots__ = 'kind', 'name', 'req', 'default', 'annotation'

    def __init__(self, kind, name, req, default=None, annotation=int):
        self.kind, self.name, self.req = kind, name, req
        self.default, self.annotation = default, annotation

    def __repr__(self):
        return f'{KIND_NAMES[self.kind]}:{self.name}:{self.req}'


def legal(params):
    """independent statement of which parameter lists Python allows"""
    if len({p.name for p in params}) != len(params):
        return False
    kinds = [p.kind for p in params]
    if kinds != sorted(kinds):
        return False
    if kinds.count(VP) > 1 or kinds.count(VK) > 1:
        return False
    seen_optional = False
    for p in params:
        if p.kind in (PO, PK):
            if p.req == 'r' and seen_optional:
                return False
            seen_optional = seen_optional or p.req != 'r'
    return True


def source(params, name='f', defaults='_D'):
    parts, last = [], None
    star = False
    for i, p in enumerate(params):
        if last == PO and p.kind != PO:
            parts.append('/')
        if p.kind == KO and not star:
            if not any(q.kind == VP for q in params):
                parts.append('*')
            star = True
        text = {VP: '*', VK: '**'}.get(p.kind, '') + p.name
        if p.kind not in (VP, VK) and p.req != 'r':
            text += f'={defaults}'
        parts.append(text)
        last = p.kind
    if last == PO:
        parts.append('/')
    return f'def {name}({", ".join(parts)}): return True\n'


def function(params):
    namespace = {'_D': None}
    exec(source(params), namespace)
    return namespace['f']


def binds(f, args, kwargs):
    try:
        f(*args, **kwargs)
    except TypeError:
        return False
    return True


def parameter(p, base):
    kind = base.ParameterKind[KINDS[p.kind]]
    if p.req == 'r' and p.kind not in (VP, VK):
        return base.RequiredParameter(annotation=p.annotation, kind=kind,
                                      name=p.name)
    if p.req == 'd' and p.kind not in (VP, VK):
        return base.OptionalParameter(annotation=p.annotation,
                                      default=p.default, kind=kind,
                                      name=p.name)
    return base.OptionalParameter(annotation=p.annotation, kind=kind,
                                  name=p.name)


def plain(params, base, returns=None):
    return base.PlainSignature(*[parameter(p, base) for p in params],
                               returns=returns)


SLOTS = [(PO, 'r'), (PO, 'd'), (PK, 'r'), (PK, 'd'), (VP, 'o'), (KO, 'r'),
         (KO, 'd'), (VK, 'o')]


def all_lists(max_length, names='abcdefgh'):
    """every legal parameter list up to the length (names by position)"""
    for n in range(max_length + 1):
        for slots in itertools.product(SLOTS, repeat=n):
            params = [Param(k, names[i], r, default=100 + i)
                      for i, (k, r) in enumerate(slots)]
            if legal(params):
                yield params


NAMES = ['a', 'b', 'c', 'd', 'e', 'x', 'y', 'self', 'cls', 'args', 'kwargs',
         'function', 'signature', 'parameter', 'returns', 'name', 'kind',
         'default', 'annotation', '_', '__x', 'é', 'func', 'value', 'has',
         'parameters', 'has_variadic', 'positionals', 'path', 'default_']


def random_list(rng, *, max_length=9, annotation=None, default=None,
                names=NAMES, optional_without_default=True):
    counts = [rng.choice((0, 0, 1, 1, 2, 3)), rng.choice((0, 1, 1, 2, 3)),
              rng.random() < .3, rng.choice((0, 0, 1, 2, 3)),
              rng.random() < .3]
    while sum(counts) > max_length:
        counts[rng.choice([0, 1, 3])] = rng.choice((0, 1))
    pool = rng.sample(names, sum(counts))
    optional = False
    result = []
    for kind, count in enumerate(counts):
        for _ in range(count):
            name = pool.pop()
            if kind in (VP, VK):
                req = 'o'
            elif kind == KO:
                req = rng.choice('rrddo')
            else:
                optional = optional or rng.random() < .3
                req = rng.choice('ddo') if optional else 'r'
            if req == 'o' and not optional_without_default and kind not in (
                    VP, VK):
                req = 'd'
            result.append(Param(
                    kind, name, req,
                    default=(default(rng) if default
                             else rng.randrange(1000)),
                    annotation=(annotation(rng) if annotation else int)))
    return result


def all_calls(params, *, extra_args=1, unknown='zz'):
    """all (number of positionals, keyword names) calls"""
    names = [p.name for p in params] + [unknown]
    positional = sum(p.kind in (PO, PK) for p in params)
    for nargs in range(positional + extra_args + 1):
        for r in range(len(names) + 1):
            for kw in itertools.combinations(names, r):
                yield nargs, kw


def random_call(rng, params, unknown=('zz', 'self', 'args', 'kwargs')):
    names = [p.name for p in params]
    positional = sum(p.kind in (PO, PK) for p in params)
    style = rng.random()
    if style < .5:
        # near a valid call
        nargs = rng.randrange(positional + 1)
        rest = [p for i, p in enumerate(params)
                if p.kind == KO or p.kind == PK and i >= nargs]
        kw = [p.name for p in rest
              if rng.random() < (.9 if p.req == 'r' else .4)]
        if rng.random() < .3:
            kw += rng.sample(names + list(unknown), 1)
    else:
        nargs = rng.randrange(positional + 2)
        candidates = names + list(unknown)
        kw = rng.sample(candidates, rng.randrange(min(len(candidates), 5)))
    kw = list(dict.fromkeys(kw))
    rng.shuffle(kw)
    return nargs, tuple(kw)


def shape(params):
    return ','.join(map(repr, params))
