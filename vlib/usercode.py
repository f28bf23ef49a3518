"""Generated user modules: definitions of every sort, often named like
builtins and standard library objects."""
import builtins
import sys
import types

from vlib import gen

STDLIB_NAMES = ['len', 'print', 'map', 'dict', 'int', 'str', 'open', 'sorted',
                'max', 'object', 'type', 'list', 'iter', 'OrderedDict',
                'Counter', 'Path', 'partial', 'reduce', 'wraps', 'namedtuple',
                'Thread', 'sleep', 'join', 'dumps', 'loads', 'Fraction',
                'datetime', 'date', 'Popen', 'run', 'Logger', 'getLogger',
                'Random', 'choice', 'Queue', 'defaultdict', 'chain', 'super',
                'Generic', 'TypeVar', 'Any', 'Callable', 'Iterable', 'Self',
                'field', 'dataclass', 'Enum', 'contextmanager', 'signature']
METHOD_NAMES = ['get', 'update', 'append', 'keys', 'fromkeys', 'read', 'run',
                '__call__', '__eq__', '__len__', '__enter__', 'join',
                'maketrans', 'from_bytes', '__add__', 'split', 'mro',
                '__contains__', '__getitem__', '__exit__', 'close', 'pop']
OWN_NAMES = ['f', 'g', 'compute', 'Node', 'Base', 'Widget', 'helper', '_x',
             'é', 'Inner']
ANNOTATIONS = ['int', 'str', 'List[int]', '"forward"', 'None', 'A1', 'A2',
               'Optional[str]', '{}', '[1, 2]', 'Callable[..., int]',
               'lambda x: x', 'T', '""', '0', 'False', '()', '...', 'Any',
               'object', 'inspect_empty_like']
DEFAULTS = ['None', '1', 'D1', 'D2', '[]', '...', 'inspect_empty_like',
            '(1, [2])', 'int', 'NotImplemented', 'lambda: 0', '"x"',
            'True', '1.0', 'False', '0', '-0.0', '()', '""', '{}']
PRELUDE = '''\
import abc, dataclasses, enum, functools, typing, collections, contextlib
from typing import *
T = TypeVar("T")
class _Meta(type):
    def __call__(cls, *args, m=None, **kwargs):
        return super().__call__(*args, **kwargs)
class _PlainMeta(type):
    pass
class _UnhashableMeta(type):
    def __eq__(cls, other):
        return cls is other
class _EqualMeta(type):
    def __eq__(cls, other):
        return isinstance(other, _EqualMeta)
    def __hash__(cls):
        return 1
class _RefusingMeta(type):
    def __hash__(cls):
        raise RuntimeError("hash")
    def __bool__(cls):
        raise RuntimeError("bool")
    def __len__(cls):
        raise RuntimeError("len")
    def __iter__(cls):
        raise RuntimeError("iter")
class _Sentinel: pass
A1, A2, D1, D2 = _Sentinel(), _Sentinel(), _Sentinel(), _Sentinel()
inspect_empty_like = _Sentinel
def _identity(f):
    return f
def _wrapping(f):
    @functools.wraps(f)
    def wrapper(*args, **kwargs):
        return f(*args, **kwargs)
    return wrapper
def _wrapping_stdlib(f):
    return functools.wraps(sorted)(f)
def _renaming(f):
    f.__name__, f.__qualname__ = "len", "len"
    return f
'''


class Source:
    def __init__(self, rng):
        self.rng = rng
        self.lines = []

    def name(self, pool=None):
        rng = self.rng
        style = rng.random()
        if pool is None:
            pool = STDLIB_NAMES
        return rng.choice(pool if style < .7 else OWN_NAMES)

    def parameters(self, first=None):
        rng = self.rng
        params = gen.random_list(
                rng, max_length=5,
                names=['a', 'b', 'c', 'd', 'e', 'x', 'args', 'kwargs',
                       'iterable', 'key', 'value', 'other', 'func'],
                optional_without_default=False)
        if first is not None:
            head = gen.Param(rng.choice((gen.PO, gen.PK))
                             if not params or params[0].kind != gen.PO
                             else gen.PO, first, 'r')
            if head.kind == gen.PK and any(p.kind == gen.PO for p in params):
                head.kind = gen.PO
            params.insert(0, head)
        parts, last, star = [], None, False
        for p in params:
            if last == gen.PO and p.kind != gen.PO:
                parts.append('/')
            if p.kind == gen.KO and not star:
                if not any(q.kind == gen.VP for q in params):
                    parts.append('*')
                star = True
            text = {gen.VP: '*', gen.VK: '**'}.get(p.kind, '') + p.name
            if rng.random() < .5 and p.name != first:
                text += ': ' + rng.choice(ANNOTATIONS)
            if p.req != 'r' and p.kind not in (gen.VP, gen.VK):
                text += ' = ' + rng.choice(DEFAULTS)
            parts.append(text)
            last = p.kind
        if last == gen.PO:
            parts.append('/')
        return ', '.join(parts)

    def returns(self):
        return (' -> ' + self.rng.choice(ANNOTATIONS)
                if self.rng.random() < .5 else '')

    def add(self, indent, line):
        self.lines.append('    ' * indent + line)

    def function(self, indent, *, first=None, name=None, depth=2):
        rng = self.rng
        name = name or self.name(METHOD_NAMES if first else None)
        if rng.random() < .15:
            self.add(indent, '@' + rng.choice(
                    ('_identity', '_wrapping', '_wrapping_stdlib',
                     '_renaming', 'contextlib.contextmanager')))
        kind = rng.choice(('def', 'def', 'def', 'async def'))
        self.add(indent, f'{kind} {name}({self.parameters(first)})'
                         f'{self.returns()}:')
        body = rng.random()
        if depth and body < .25:
            inner = self.function(indent + 1, depth=depth - 1)
            self.add(indent + 1, f'_register({inner})')
            self.add(indent + 1, 'return 1')
        elif depth and body < .35:
            inner = self.klass(indent + 1, depth=depth - 1)
            self.add(indent + 1, f'_register({inner})')
            self.add(indent + 1, 'return 1')
        elif body < .5:
            self.add(indent + 1, 'yield 1')
        else:
            self.add(indent + 1, 'return 1')
        return name

    def klass(self, indent, *, depth=2, bases=()):
        rng = self.rng
        name = self.name()
        style = rng.choice(('plain',) * 6 + (
            'dataclass', 'namedtuple', 'enum', 'protocol', 'generic', 'abc',
            'meta', 'plainmeta', 'oddmeta', 'builtin', 'typeddict', 'functional'))
        if style == 'dataclass':
            self.add(indent, '@dataclasses.dataclass' + rng.choice(
                    ('', '(frozen=True)', '(kw_only=True)', '(slots=True)',
                     '(init=False)')))
            self.add(indent, f'class {name}:')
            self.add(indent + 1, 'x: int')
            self.add(indent + 1, 'y: "str"')
            self.add(indent + 1, f'z: int = {rng.choice(("1", "D_"))}'
                     .replace('D_', 'dataclasses.field(default=3)'))
            if rng.random() < .3:
                self.add(indent + 1, 'w: ClassVar[int] = 3')
            return name
        if style == 'namedtuple':
            self.add(indent, f'class {name}(NamedTuple):')
            self.add(indent + 1, 'x: int')
            self.add(indent + 1, 'y: str = "1"')
            return name
        if style == 'enum':
            self.add(indent, f'class {name}(enum.Enum):')
            self.add(indent + 1, 'X = 1')
            return name
        if style == 'typeddict':
            self.add(indent, f'class {name}(TypedDict):')
            self.add(indent + 1, 'x: int')
            return name
        if style == 'functional':
            self.add(indent, name + ' = ' + rng.choice((
                f'collections.namedtuple("{name}", "a b")',
                f'type("{name}", (), {{}})',
                f'dataclasses.make_dataclass("{name}", ["q", "w"])',
                f'NewType("{name}", int)',
                'functools.partial(lambda a, b=D1, *c: 0, 1)')))
            return name
        base = {'protocol': 'Protocol', 'generic': 'Generic[T]',
                'abc': 'abc.ABC', 'meta': 'metaclass=_Meta',
                'plainmeta': 'metaclass=_PlainMeta',
                'oddmeta': 'metaclass=' + rng.choice((
                    '_UnhashableMeta', '_EqualMeta', '_EqualMeta',
                    '_RefusingMeta')),
                'builtin': rng.choice(('Exception', 'int', 'dict', 'str',
                                       'list', 'ValueError', 'object',
                                       'collections.OrderedDict',
                                       'collections.Counter', 'tuple'))
                }.get(style, '')
        if style == 'plain' and bases and rng.random() < .6:
            base = ', '.join(rng.sample(list(bases), 1))
        # names may shadow builtins, so bases come from the prelude's scope
        self.add(indent, f'class {name}({base}):')
        body = len(self.lines)
        for special in ('__init__', '__new__'):
            if style != 'protocol' and rng.random() < .45:
                self.add(indent + 1,
                         f'def {special}({self.parameters("self")})'
                         f'{self.returns()}:')
                self.add(indent + 2, 'pass')
        for _ in range(rng.randrange(3)):
            decorator = rng.choice((None, None, 'classmethod',
                                    'staticmethod'))
            if decorator:
                self.add(indent + 1, '@builtins_.' + decorator)
            self.function(indent + 1, first=None
                          if decorator == 'staticmethod' else 'self',
                          depth=0)
        if depth and rng.random() < .3:
            inner = self.klass(indent + 1, depth=depth - 1)
            self.add(indent + 1, f'_register({inner})')
        if len(self.lines) == body:
            self.add(indent + 1, 'pass')
        return name


def definition(rng):
    source = Source(rng)
    if rng.random() < .5:
        name = source.function(0)
    elif rng.random() < .15:
        name = source.name()
        source.add(0, f'{name} = lambda {lambda_parameters(source)}: 0')
    else:
        name = source.klass(0)
    return name, '\n'.join(source.lines) + '\n'


def lambda_parameters(source):
    params = source.parameters()
    while ':' in params:
        params = source.parameters()
    return params


def module(rng, name, *, registered=True, count=12):
    """real module with generated definitions; returns (module, source,
    [objects])"""
    result = types.ModuleType(name)
    objects = []
    namespace = vars(result)
    namespace['builtins_'] = builtins
    future = rng.random() < .2
    texts = [('from __future__ import annotations\n' if future else '')
             + PRELUDE]
    saved = sys.modules.get(name)
    if registered:
        sys.modules[name] = result
    namespace['_register'] = objects.append
    try:
        exec(compile(texts[0], f'<{name}>', 'exec'), namespace)
        pristine = dict(namespace)
        for _ in range(count):
            defined, text = definition(rng)
            scope = namespace
            code = compile(('from __future__ import annotations\n'
                            if future else '') + text, f'<{name}>', 'exec')
            try:
                exec(code, scope)
            except (TypeError, NameError, ValueError, AttributeError,
                    SyntaxError):
                # definition that Python refuses
                continue
            finally:
                shadowed = {k: scope.get(k) for k in pristine
                            if scope.get(k) is not pristine[k]}
                value = scope.get(defined)
                # the rest must not be affected by shadowing
                scope.update({k: pristine[k] for k in shadowed})
            objects.append(value)
            texts.append(text)
            scope.setdefault('_kept', {})[len(texts)] = value
            if defined not in pristine and rng.random() < .8:
                for k in list(scope):
                    if k == defined and hasattr(builtins, k):
                        # still reachable by its name in most of modules
                        scope['_saved_' + k] = value
                        del scope[k]
    finally:
        pass
    return result, '\n'.join(texts), objects, saved


def run_functions(objects):
    """runs the bodies defining nested functions and classes"""
    import inspect
    for value in list(objects):
        if isinstance(value, types.FunctionType) and not (
                value.__code__.co_flags & (inspect.CO_COROUTINE
                                           | inspect.CO_GENERATOR
                                           | inspect.CO_ASYNC_GENERATOR)):
            try:
                args = [0] * (value.__code__.co_argcount)
                kw = dict.fromkeys(
                        value.__code__.co_varnames[
                            value.__code__.co_argcount:
                            value.__code__.co_argcount
                            + value.__code__.co_kwonlyargcount], 0)
                value(*args, **kw)
            except Exception:
                pass


def members(objects):
    """callables within classes: functions, class / static / bound methods"""
    result = []
    for value in objects:
        result.append(value)
        if isinstance(value, type):
            for name, raw in list(vars(value).items()):
                if isinstance(raw, (staticmethod, classmethod)):
                    result.append(raw.__func__)
                    try:
                        result.append(getattr(value, name))
                    except AttributeError:
                        pass
                elif isinstance(raw, (types.FunctionType, type)):
                    result.append(raw)
    return result
