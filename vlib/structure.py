"""Descriptions of signatures, annotations and defaults that depend neither on
the library's repr nor on its equality."""
import collections.abc as abc
import enum
import types
import typing as t

import typing_extensions as te

try:
    PARAM_SPECS = (t.ParamSpec, te.ParamSpec)
except AttributeError:  # pragma: no cover
    PARAM_SPECS = (te.ParamSpec,)
NONE = type(None)
VARIANCES = {(False, False): '', (True, False): 'co', (False, True): 'contra'}


def class_name(c):
    return f'{c.__module__}.{c.__qualname__}'


def annotation(value, *, ordered=False, stack=()):
    """ordered=False forgets the order and repetitions in unions / literals,
    and how generic classes are spelled (list / typing.List)"""

    def sub(v):
        return annotation(v, ordered=ordered, stack=stack)

    if value is None:
        return 'None'
    if isinstance(value, str):
        return f'string:{value}'
    if isinstance(value, t.ForwardRef):
        return f'forward:{value.__forward_arg__}'
    if isinstance(value, t.TypeVar):
        if value in stack:
            return f'typevar:{value.__name__}'
        stack = (*stack, value)
        bound = value.__bound__
        variance = VARIANCES.get((value.__covariant__,
                                  value.__contravariant__), 'infer')
        parts = ([f'bound={annotation(bound, ordered=ordered, stack=stack)}']
                 if bound is not None else [])
        parts += [annotation(c, ordered=ordered, stack=stack)
                  for c in value.__constraints__]
        return f'typevar:{value.__name__}<{variance}>[{", ".join(parts)}]'
    if isinstance(value, PARAM_SPECS):
        return f'paramspec:{value.__name__}'
    if isinstance(value, (t.ParamSpecArgs, t.ParamSpecKwargs)):
        return f'{type(value).__name__}:{value.__origin__.__name__}'
    if isinstance(value, t.NewType):
        return f'newtype:{value.__name__}[{sub(value.__supertype__)}]'
    if isinstance(value, (list, tuple)):
        return f'{type(value).__name__}[{", ".join(map(sub, value))}]'
    origin = t.get_origin(value)
    if origin is None:
        if value in (t.Any, te.Any):
            return 'any'
        if value in (t.Self, te.Self):
            return 'self'
        if isinstance(value, type):
            return 'class:' + class_name(value)
        if isinstance(value, t._SpecialGenericAlias):
            return 'class:' + class_name(value.__origin__)
        if value is ...:
            return '...'
        if isinstance(value, t._SpecialForm):
            return 'special:' + value._name
        return f'object:{class_name(type(value))}:{value!r}'
    if isinstance(value, type(t.Annotated[int, 1])):
        return (f'annotated[{sub(value.__origin__)}, '
                f'{", ".join(map(repr, value.__metadata__))}]')
    args = t.get_args(value)
    if origin is t.Union or origin is types.UnionType:
        parts = list(map(sub, args))
        # None as a member of union
        parts = ['class:builtins.NoneType' if p == 'None' else p
                 for p in parts]
        if not ordered:
            parts = sorted(set(parts))
        return f'union[{", ".join(parts)}]'
    if origin in (t.Literal, te.Literal):
        parts = [literal(a) for a in args]
        if not ordered:
            parts = sorted(set(parts))
        return f'literal[{", ".join(parts)}]'
    if origin is abc.Callable and len(args) == 2 and isinstance(args[0],
                                                                list):
        return f'callable[({", ".join(map(sub, args[0]))}) {sub(args[1])}]'
    if origin is abc.Callable and args:
        return f'callable[{", ".join(map(sub, args))}]'
    head = ('class:' + class_name(origin) if isinstance(origin, type)
            else f'special:{origin!r}')
    spelled = '' if not ordered else f'<{type(value).__name__}>'
    return f'{head}{spelled}[{", ".join(map(sub, args))}]'


def literal(value):
    if isinstance(value, enum.Enum):
        return f'{class_name(type(value))}.{value.name}'
    return f'{type(value).__name__}:{value!r}'


def default(value):
    if isinstance(value, (list, tuple)):
        return (f'{type(value).__name__}'
                f'[{", ".join(map(default, value))}]')
    if isinstance(value, enum.Enum):
        return literal(value)
    if isinstance(value, (int, float, complex, str, bytes, bool, NONE)):
        return literal(value)
    if (isinstance(value, (type, t.TypeVar)) or t.get_origin(value)
            is not None):
        return annotation(value)
    try:
        return f'{class_name(type(value))}:{value!r}'
    except Exception as error:
        return f'{class_name(type(value))}:{error!r}'


def parameter(p, **kw):
    return (f'{p.kind.name} {p.name}: {annotation(p.annotation, **kw)}'
            + (' required' if type(p).__name__ == 'RequiredParameter'
               else f' = {default(p.default)}' if p.has_default
               else ' = ...'))


def signature(s, **kw):
    if hasattr(s, 'signatures'):
        return ' | '.join(signature(x, **kw) for x in s.signatures)
    return (f'({"; ".join(parameter(p, **kw) for p in s.parameters)})'
            f' -> {annotation(s.returns, **kw)}')
