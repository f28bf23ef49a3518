"""Annotations and defaults as plain trees: each tree can be built into real
(fresh) objects in several spellings, and has a canonical form independent of
the library."""
import collections.abc as abc
import enum
import random
import typing as t

import typing_extensions as te


class Color(enum.Enum):
    RED = 1
    GREEN = 2


class Box(t.Generic[t.TypeVar('_V')]):
    pass


class Plain:
    class Inner:
        pass


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


class Opaque:
    """picklable default without an evaluable repr, compared by tag"""

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, other):
        return (self.tag == other.tag if isinstance(other, Opaque)
                else NotImplemented)

    __hash__ = None

    def __repr__(self):
        return f'Opaque({self.tag!r})'


ModuleT = t.TypeVar('ModuleT')
ModuleS = t.TypeVar('ModuleS', bound=int, covariant=True)
ModuleN = t.NewType('ModuleN', int)
ModuleP = t.ParamSpec('ModuleP')
CLASSES = {c.__module__ + '.' + c.__qualname__: c for c in (
    int, str, bytes, float, bool, object, list, dict, tuple, set, type,
    complex, Color, Box, Plain, Plain.Inner, WithMeta, abc.Iterable,
    abc.Sequence, abc.Callable, type(None), type(NotImplemented))}
NAMES = list(CLASSES)
ALIASES = {f'{a.__origin__.__module__}.{a.__origin__.__qualname__}': a
           for a in (t.List, t.Dict, t.Tuple, t.Set, t.Type, t.Iterable,
                     t.Sequence, t.Callable)}


class Node:
    """op with plain payload and children"""
    __slots__ = 'op', 'data', 'kids'

    def __init__(self, op, data=None, kids=()):
        self.op, self.data, self.kids = op, data, tuple(kids)

    def __repr__(self):
        inside = ', '.join(
                ([repr(self.data)] if self.data is not None else [])
                + list(map(repr, self.kids)))
        return f'{self.op}({inside})'


def random_annotation(rng, depth=3, *, evaluable=False, pickled=False):
    """evaluable: repr can be evaluated back"""
    leafs = ['cls'] * 6 + ['none', 'any', 'lit', 'typevar', 'typevar']
    inner = ['list', 'dict', 'tuple', 'vartuple', 'union', 'union',
             'optional', 'callable', 'callable_any', 'type', 'iterable',
             'box']
    if not evaluable:
        leafs += ['forward', 'newtype', 'paramspec', 'self']
        inner += ['annotated', 'final', 'callable_params', 'concatenate']
    op = rng.choice(leafs if depth == 0 or rng.random() < .45 else inner)

    def kid():
        return random_annotation(rng, depth - 1, evaluable=evaluable,
                                 pickled=pickled)

    if pickled and (op in ('forward', 'newtype', 'paramspec', 'callable_params',
                           'concatenate') or op.startswith('typevar')):
        # these are pickled by reference to a module's attribute
        return Node('global', rng.choice(('ModuleT', 'ModuleS', 'ModuleN')))
    if op == 'cls':
        return Node(op, rng.choice(NAMES))
    if op == 'lit':
        pool = ['a', 'b', 'it\'s', 2, 3, -4, b'a', b'\0', 0, 1, True, False]
        if not evaluable:
            pool.append(Color.RED)
        return Node(op, tuple(rng.sample(pool, rng.randrange(1, 4))))
    if op == 'typevar':
        name = rng.choice(('T', 'S'))
        style = rng.randrange(6)
        kids = []
        variance = rng.choice(('', '', 'co', 'contra'))
        if style == 0 and depth:
            kids = [kid(), kid()]
            return Node('typevar_constraints', (name, variance), kids)
        if style == 1 and depth:
            return Node('typevar_bound', (name, variance), [kid()])
        return Node('typevar', (name, variance))
    if op == 'forward':
        return Node(op, rng.choice(('A', 'B')))
    if op == 'string':
        return Node(op, rng.choice(('A', 'B', 'int')))
    if op == 'newtype':
        return Node(op, rng.choice(('N', 'M')),
                    [Node('cls', rng.choice(NAMES[:4]))])
    if op in ('paramspec', 'callable_params'):
        name = rng.choice(('P', 'Q'))
        return (Node(op, name) if op == 'paramspec'
                else Node(op, name, [kid()]))
    if op == 'concatenate':
        return Node(op, rng.choice(('P', 'Q')), [kid(), kid()])
    if op in ('none', 'any', 'self'):
        return Node(op)
    if op == 'annotated':
        return Node(op, rng.choice((1, 'x')), [kid()])
    if op in ('dict',):
        return Node(op, None, [kid(), kid()])
    if op == 'tuple':
        return Node(op, None, [kid() for _ in range(rng.randrange(0, 4))])
    if op == 'union':
        return Node(op, None, [kid() for _ in range(rng.randrange(2, 4))])
    if op == 'callable':
        return Node(op, None, [kid() for _ in range(rng.randrange(1, 4))])
    return Node(op, None, [kid()])


def members(node):
    """flattened members of an union"""
    result = []
    for k in node.kids:
        if k.op == 'union':
            result.extend(members(k).values())
        elif k.op == 'optional':
            result.extend(members(Node('union', None, k.kids)).values())
            result.append(Node('none'))
        else:
            result.append(k)
    unique = {}
    for k in result:
        unique.setdefault(canon_argument(k), k)
    return unique


def canon(node):
    """annotation as it stands in a parameter"""
    if node.op == 'none':
        return 'None'
    return canon_argument(node)


def canon_argument(node):
    op = node.op
    if op == 'none':
        return 'class:builtins.NoneType'
    if op == 'paramspec':
        return canon_argument(Node('paramspec_full', (node.data, '')))
    if op == 'twins':
        # members equal to each other, but not the same for ``typing``
        return f'union{sorted({canon_argument(k) for k in node.kids})}*'
    if op == 'cls':
        return 'class:' + node.data
    if op in ('any', 'self'):
        return op
    if op == 'lit':
        return 'lit' + str(sorted(set(map(repr, node.data))))
    if op in ('union', 'optional'):
        unique = members(Node('union', None, [node]))
        names = sorted(unique)
        return names[0] if len(names) == 1 else f'union{names}'
    if op == 'string':
        # converted into forward references inside other constructs
        return f'forward:{node.data}'
    head = {'list': 'class:builtins.list', 'dict': 'class:builtins.dict',
            'tuple': 'class:builtins.tuple',
            'vartuple': 'class:builtins.tuple...',
            'type': 'class:builtins.type',
            'iterable': 'class:collections.abc.Iterable',
            'box': 'class:box'}.get(op, op)
    return (f'{head}<{node.data!r}>'
            f'[{", ".join(map(canon_argument, node.kids))}]')


def canon_top(node):
    return f'string:{node.data}' if node.op == 'string' else canon(node)


def build(node, rng, *, plain=False):
    """fresh object; spelling (typing or builtin, order of union members)
    chosen by rng, plain sticks to typing"""

    def kids(nodes=None):
        return [type(None) if k.op == 'none' else build(k, rng, plain=plain)
                for k in (node.kids if nodes is None else nodes)]

    def spelled(*options):
        return options[0] if plain else rng.choice(options)

    op = node.op
    if op == 'none':
        return None
    if op == 'cls':
        value = CLASSES[node.data]
        # ``typing.List`` is the same thing as ``list``
        return (spelled(value, value, ALIASES[node.data])
                if node.data in ALIASES else value)
    if op == 'global':
        return globals()[node.data]
    if op == 'any':
        return t.Any
    if op == 'self':
        return te.Self
    if op == 'lit':
        values = list(node.data)
        rng.shuffle(values)
        return t.Literal[tuple(values)]
    if op == 'forward':
        return t.ForwardRef(node.data)
    if op == 'string':
        return node.data
    if op == 'newtype':
        return t.NewType(node.data, kids()[0])
    if op.startswith('typevar'):
        name, variance = node.data
        options = {'covariant': variance == 'co',
                   'contravariant': variance == 'contra'}
        if op == 'typevar_constraints':
            return t.TypeVar(name, *kids(), **options)
        if op == 'typevar_bound':
            return t.TypeVar(name, bound=kids()[0], **options)
        return t.TypeVar(name, **options)
    if op == 'paramspec':
        return spelled(t.ParamSpec, te.ParamSpec)(node.data)
    if op in ('paramspec_full', 'params_args', 'params_kwargs'):
        name, variance = node.data
        result = spelled(t.ParamSpec, te.ParamSpec)(
                name, covariant=variance == 'co',
                contravariant=variance == 'contra',
                **({'bound': kids()[0]} if node.kids else {}))
        return (result.args if op == 'params_args' else
                result.kwargs if op == 'params_kwargs' else result)
    if op == 'twins':
        values = kids(node.kids)
        rng.shuffle(values)
        return t.Union[tuple(values)]
    if op == 'callable_params':
        return t.Callable[t.ParamSpec(node.data), kids()[0]]
    if op == 'concatenate':
        first, result = kids()
        return t.Callable[te.Concatenate[first, t.ParamSpec(node.data)],
                          result]
    if op == 'annotated':
        return t.Annotated[kids()[0], node.data]
    if op == 'final':
        return t.Final[kids()[0]]
    if op == 'list':
        return spelled(t.List, list)[kids()[0]]
    if op == 'dict':
        return spelled(t.Dict, dict)[tuple(kids())]
    if op == 'tuple':
        return spelled(t.Tuple, tuple)[tuple(kids())]
    if op == 'vartuple':
        return spelled(t.Tuple, tuple)[kids()[0], ...]
    if op == 'type':
        return spelled(t.Type, type)[kids()[0]]
    if op == 'iterable':
        return spelled(t.Iterable, abc.Iterable)[kids()[0]]
    if op == 'box':
        return Box[kids()[0]]
    if op == 'callable':
        *arguments, result = kids()
        return spelled(t.Callable, abc.Callable)[arguments, result]
    if op == 'callable_any':
        return spelled(t.Callable, abc.Callable)[..., kids()[0]]
    if op in ('union', 'optional'):
        parts = list(members(Node('union', None, [node])).values())
        rng.shuffle(parts)
        values = kids(parts)
        if not plain and len(values) > 1 and rng.random() < .3:
            try:
                result = values[0]
                for v in values[1:]:
                    result = result | v
                return result
            except TypeError:
                pass
        return t.Union[tuple(values)]
    raise AssertionError(op)


# annotations that typing refuses as arguments of others
def buildable(node):
    try:
        build(node, random.Random(0), plain=True)
        return True
    except TypeError:
        return False


def annotation(rng, *, depth=3, evaluable=False, pickled=False):
    if not evaluable and rng.random() < .05:
        return Node('string', rng.choice(('A', 'B', 'int')))
    while True:
        node = random_annotation(rng, depth, evaluable=evaluable,
                                 pickled=pickled)
        if buildable(node):
            return node


def mutate(node, rng, *, evaluable=False):
    """tree differing in one place (perhaps spelled differently only)"""
    if not node.kids or rng.random() < .3:
        if node.op.startswith('typevar') and rng.random() < .6:
            name, variance = node.data
            return Node(node.op, rng.choice([
                ('S' if name == 'T' else 'T', variance),
                (name, rng.choice([v for v in ('', 'co', 'contra')
                                   if v != variance]))]), node.kids)
        if node.op == 'lit' and rng.random() < .6:
            return Node('lit', node.data[::-1] if rng.random() < .5
                        else node.data + ('new',))
        if node.op in ('tuple', 'union', 'callable', 'dict',
                       'typevar_constraints') and len(node.kids) > 1:
            style = rng.random()
            if style < .5:
                return Node(node.op, node.data, node.kids[::-1])
            if style < .8 and node.op in ('tuple', 'union', 'callable',
                                          'typevar_constraints'):
                return Node(node.op, node.data, node.kids + node.kids[:1])
        swaps = {'list': 'iterable', 'iterable': 'list', 'tuple': 'union',
                 'vartuple': 'tuple', 'optional': 'list', 'type': 'list',
                 'callable_any': 'callable'}
        if node.op in swaps and rng.random() < .5:
            return Node(swaps[node.op], node.data, node.kids)
        return random_annotation(rng, 1, evaluable=evaluable)
    i = rng.randrange(len(node.kids))
    kids = list(node.kids)
    kids[i] = mutate(kids[i], rng, evaluable=evaluable)
    return Node(node.op, node.data, kids)


def family(rng):
    """annotations that differ in details of a single construct"""
    a, b, c = (Node('cls', n) for n in rng.sample(NAMES[:12], 3))
    style = rng.randrange(8)
    if style == 6:
        result = [Node(op, (n, v), k)
                  for op in ('paramspec_full', 'params_args', 'params_kwargs')
                  for n in 'PQ' for v in ('', 'co', 'contra')
                  for k in ((), (a,), (b,))  # no bound is bound of None
                  if (n, v) == ('P', '') or not k]
        result += [Node('typevar', ('P', '')), Node('callable_any', None, [a])]
    elif style == 7:
        # two members of such an union are equal, all are different objects
        x, y, z = (Node('typevar', d) for d in (('T', ''), ('S', ''),
                                                ('T', 'co')))
        u = Node('typevar_bound', ('T', ''), [a])
        result = [Node('twins', None, k) for k in
                  ((x, x), (y, y), (z, z), (u, u))]
        result += [Node('union', None, k) for k in
                   ((x, y), (x, z), (x, u), (y, z), (x, a), (y, a), (u, a),
                    (x, b), (a, b))]
        result += [x, y, z, u, a]
    elif style == 0:
        kids = [(), (a,), (b,), (a, b), (b, a), (a, b, c), (a, a), (b, a, c)]
        result = [Node('typevar_constraints', (n, v), k)
                  for k in kids if len(k) > 1
                  for n, v in (('T', ''), ('T', 'co'), ('S', ''))]
        result += [Node('typevar_bound', d, [k])
                   for k in (a, b, Node('union', None, [a, b]),
                             Node('tuple', None, [a, b]))
                   for d in (('T', ''), ('T', 'contra'), ('S', ''))]
        result += [Node('typevar', (n, v)) for n in 'TS'
                   for v in ('', 'co', 'contra')]
        result += [Node('paramspec', 'P'), Node('paramspec', 'T')]
    elif style == 1:
        result = [Node(op, None, k) for op in ('tuple', 'union', 'callable')
                  for k in ((), (a,), (a, b), (b, a), (a, b, c), (c, a, b),
                            (a, a), (a, a, b), (a, b, b))
                  if len(k) >= {'tuple': 0, 'callable': 1, 'union': 2}[op]]
        result += [Node('vartuple', None, [a]), Node('vartuple', None, [b]),
                   Node('cls', 'builtins.tuple'), Node('cls', 'builtins.list'),
                   Node('cls', 'collections.abc.Callable'),
                   Node('optional', None, [a]),
                   Node('union', None, [a, Node('none')]), a,
                   Node('callable_any', None, [a]),
                   Node('callable_params', 'P', [a]),
                   Node('callable_params', 'Q', [a]),
                   Node('concatenate', 'P', [a, b]),
                   Node('concatenate', 'P', [b, a])]
    elif style == 2:
        values = rng.sample([0, 1, 2, True, False, '', '1', 'a', b'', b'1',
                             b'a', Color.RED, Color.GREEN], 4)
        result = [Node('lit', tuple(values[:n])) for n in range(1, 5)]
        result += [Node('lit', tuple(values[n:])) for n in range(1, 4)]
        result += [Node('lit', tuple(values[:n][::-1])) for n in (2, 3)]
    elif style == 3:
        result = [Node(op, None, [k])
                  for op in ('list', 'type', 'iterable', 'box', 'final',
                             'vartuple', 'optional', 'tuple')
                  for k in (a, b, Node('list', None, [a]))]
        result += [Node('dict', None, k) for k in ((a, b), (b, a), (a, a))]
    elif style == 4:
        result = [Node('newtype', n, [k]) for n in 'NM' for k in (a, b)]
        result += [Node('annotated', d, [k]) for d in (1, 2, 'x')
                   for k in (a, b)]
        result += [Node(op, d) for op in ('forward', 'string')
                   for d in ('A', 'B', 'int')]
        result += [Node('any'), Node('self'), Node('none'), a, b,
                   Node('cls', 'builtins.NoneType'),
                   Node('cls', 'builtins.object')]
    else:
        result = [Node('cls', n) for n in NAMES]
        result += [Node('any'), Node('self'), Node('none')]
    return [node for node in result if buildable(node)]


# -- defaults ----------------------------------------------------------
def random_default(rng, depth=2, *, evaluable=False, pickled=False):
    leafs = [('value', v) for v in
             (0, 1, -1, 2 ** 70, 1.5, -0.25, 'a', 'b', "quo'te\"\n", '', b'',
              b'a', None, ..., True, False, 3j, 'é\u2028')]
    style = rng.random()
    if depth and style < .3:
        op = rng.choice(('dlist', 'dtuple', 'dtuple', 'ddict', 'dset'))
        if op == 'dset':
            return Node(op, tuple(rng.sample((5, 6, 7, 'x'), 2)))
        return Node(op, None,
                    [random_default(rng, depth - 1, evaluable=evaluable,
                                    pickled=pickled)
                     for _ in range(rng.randrange(0, 3))])
    if style < .4:
        return Node('annotation', None,
                    [annotation(rng, depth=1, evaluable=True,
                                pickled=pickled)])
    if style < .45 and not evaluable:
        return Node('opaque', rng.randrange(3))
    if style < .5 and not evaluable:
        return Node('enum', rng.choice(('RED', 'GREEN')))
    return Node(*rng.choice(leafs))


def build_default(node, rng, *, plain=False):
    kids = [build_default(k, rng, plain=plain) for k in node.kids] \
        if node.op != 'annotation' else ()
    if node.op == 'value':
        return node.data
    if node.op == 'dlist':
        return list(kids)
    if node.op == 'dtuple':
        return tuple(kids)
    if node.op == 'ddict':
        # values that structural comparison does not enter
        return {i: str(k) for i, k in enumerate(node.kids)}
    if node.op == 'dset':
        return set(node.data)
    if node.op == 'annotation':
        return build(node.kids[0], rng, plain=plain)
    if node.op == 'opaque':
        return Opaque(node.data)
    if node.op == 'enum':
        return Color[node.data]
    raise AssertionError(node.op)


def canon_default(node):
    if node.op == 'value':
        v = node.data
        # Python's own equality of numbers
        if isinstance(v, (int, float, complex)):
            return f'number:{v + 0!r}'
        return f'value:{v!r}'
    if node.op == 'annotation':
        kid = node.kids[0]
        return 'value:None' if kid.op == 'none' else canon_top(kid)
    if node.op == 'ddict':
        return f'ddict{[str(k) for k in node.kids]}'
    if node.op == 'dset':
        return f'dset{sorted(map(repr, node.data))}'
    return (f'{node.op}<{node.data!r}>'
            f'[{", ".join(map(canon_default, node.kids))}]')


def mutate_default(node, rng, *, evaluable=False):
    if node.op == 'annotation' and rng.random() < .7:
        kid = mutate(node.kids[0], rng, evaluable=True)
        return (Node('annotation', None, [kid]) if buildable(kid) else node)
    if node.kids and node.op in ('dlist', 'dtuple'):
        style = rng.random()
        if style < .25:
            return Node('dtuple' if node.op == 'dlist' else 'dlist', None,
                        node.kids)
        if style < .5:
            return Node(node.op, None, node.kids[:-1])
        kids = list(node.kids)
        i = rng.randrange(len(kids))
        kids[i] = mutate_default(kids[i], rng, evaluable=evaluable)
        return Node(node.op, None, kids)
    return random_default(rng, 1, evaluable=evaluable)
