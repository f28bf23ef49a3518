"""Parameters and signatures with generated annotations / defaults as plain
trees: buildable several times, with a canonical form that says which of them
have to be equal."""
from vlib import annotations as an
from vlib import gen


class Sig:
    """plain signature: list of gen.Param whose annotation and default are
    trees; returns is a tree"""

    def __init__(self, params, returns):
        self.params, self.returns = params, returns

    def build(self, base, rng, *, plain=False):
        return base.PlainSignature(
                *[build_parameter(p, base, rng, plain=plain)
                  for p in self.params],
                returns=an.build(self.returns, rng, plain=plain))

    def canon(self):
        return (f'plain[{"; ".join(map(canon_parameter, self.params))}]'
                f'->{an.canon_top(self.returns)}')


class Over:
    def __init__(self, sigs):
        self.sigs = sigs

    def build(self, base, rng, *, plain=False):
        return base.OverloadedSignature(*[s.build(base, rng, plain=plain)
                                          for s in self.sigs])

    def canon(self):
        return f'over[{" | ".join(s.canon() for s in self.sigs)}]'


class Par:
    def __init__(self, param):
        self.param = param

    def build(self, base, rng, *, plain=False):
        return build_parameter(self.param, base, rng, plain=plain)

    def canon(self):
        return canon_parameter(self.param)


def build_parameter(p, base, rng, *, plain=False):
    return gen.parameter(
            gen.Param(p.kind, p.name, p.req,
                      default=(an.build_default(p.default, rng, plain=plain)
                               if p.req == 'd' else None),
                      annotation=an.build(p.annotation, rng, plain=plain)),
            base)


def canon_parameter(p):
    return (f'{gen.KIND_NAMES[p.kind]} {p.name} {p.req}: '
            f'{an.canon_top(p.annotation)}'
            + (f' = {an.canon_default(p.default)}' if p.req == 'd' else ''))


def random_sig(rng, *, max_length=4, evaluable=False, names=gen.NAMES,
               depth=2, optional_without_default=True, pickled=False):
    params = gen.random_list(
            rng, max_length=max_length, names=names,
            annotation=lambda r: an.annotation(r, depth=depth,
                                               evaluable=evaluable,
                                               pickled=pickled),
            default=lambda r: an.random_default(r, evaluable=evaluable,
                                                pickled=pickled),
            optional_without_default=optional_without_default)
    return Sig(params, an.annotation(rng, depth=depth, evaluable=evaluable,
                                     pickled=pickled))


def random_value(rng, *, evaluable=False, **kw):
    style = rng.random()
    if style < .3:
        while True:
            s = random_sig(rng, evaluable=evaluable, **kw)
            if s.params:
                return Par(rng.choice(s.params))
    if style < .75:
        return random_sig(rng, evaluable=evaluable, **kw)
    sigs = [random_sig(rng, max_length=3, evaluable=evaluable, depth=1, **kw)
            for _ in range(rng.randrange(2, 4))]
    if rng.random() < .2:
        sigs = [rng.choice(sigs[:rng.randrange(1, 3)])
                for _ in range(rng.randrange(2, 5))]
    return Over(sigs)


def mutate_parameter(p, rng, *, keep_legal=False):
    q = gen.Param(p.kind, p.name, p.req, p.default, p.annotation)
    what = rng.randrange(6)
    variadic = p.kind in (gen.VP, gen.VK)
    if what == 0:
        q.name = rng.choice(['a2', 'b2', p.name.upper()])
    elif what == 1 and p.req == 'd':
        q.default = an.mutate_default(p.default, rng)
    elif what == 2 and not variadic and p.req != 'r':
        q.req = 'o' if p.req == 'd' else 'd'
        if q.req == 'd' and not isinstance(q.default, an.Node):
            q.default = an.random_default(rng)
    elif what == 3 and not variadic and not keep_legal:
        q.kind = rng.choice((gen.PO, gen.PK, gen.KO))
    elif what == 4 and not variadic and not keep_legal:
        q.req = rng.choice('rdo')
        if q.req == 'd' and not isinstance(q.default, an.Node):
            q.default = an.random_default(rng)
    else:
        node = an.mutate(p.annotation, rng)
        if an.buildable(node):
            q.annotation = node
    return q


def mutate(value, rng):
    """a value that differs in (at most) one place"""
    if isinstance(value, Par):
        return Par(mutate_parameter(value.param, rng))
    if isinstance(value, Over):
        sigs = list(value.sigs)
        what = rng.random()
        if what < .2:
            return Over(sigs[::-1])
        if what < .35 and len(sigs) > 2:
            return Over(sigs[:-1])
        if what < .45:
            return Over(sigs + sigs[:1])
        i = rng.randrange(len(sigs))
        sigs[i] = mutate(sigs[i], rng)
        return Over(sigs)
    params = list(value.params)
    what = rng.random()
    if not params or what < .2:
        node = an.mutate(value.returns, rng)
        return Sig(params, node if an.buildable(node) else value.returns)
    i = rng.randrange(len(params))
    if what < .3:
        del params[i]
    elif what < .4 and i:
        params[i], params[i - 1] = params[i - 1], params[i]
    else:
        params[i] = mutate_parameter(params[i], rng)
    if not gen.legal(params):
        return value
    return Sig(params, value.returns)


def pool(rng, size, **kw):
    """related values: few seeds and chains of single mutations of them"""
    result = [random_value(rng, **kw) for _ in range(max(2, size // 8))]
    while len(result) < size:
        source = rng.choice(result)
        result.append(source if rng.random() < .3 else mutate(source, rng))
    return result


def family(rng, *, evaluable=False):
    """values which differ in details of a single annotation"""
    nodes = an.family(rng)
    nodes = rng.sample(nodes, min(20, len(nodes)))
    nested = rng.randrange(3)
    if nested:
        # ``typing`` makes references out of strings, builtins do not
        nodes = [n for n in nodes if n.op != 'string']
    for _ in range(nested):
        nodes = [n for n in (an.Node('list', None, [n]) for n in nodes)
                 if an.buildable(n)]
    nodes += rng.sample(nodes, min(4, len(nodes)))
    style = rng.randrange(3)
    kind, req = rng.choice(((gen.PO, 'r'), (gen.PK, 'o'), (gen.KO, 'd'),
                            (gen.VP, 'o')))
    default = an.random_default(rng, evaluable=evaluable)
    params = [gen.Param(kind, 'a', req, default, n) for n in nodes]
    returns = an.annotation(rng, depth=1, evaluable=evaluable)
    return [Sig([], n) if style == 0 else Par(p) if style == 1
            else Sig([p], returns) for n, p in zip(nodes, params)]
