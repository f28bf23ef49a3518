"""Declarations of the bundled stubs as mypy's semantic analysis sees them:
an independent reading of the files that the library reads itself."""
import builtins
import collections.abc as abc
import contextlib
import dataclasses
import enum
import functools
import importlib
import io
import os
import re
import sys
import types as t
import typing
import warnings
from pathlib import Path

import mypy
import typing_extensions
from mypy import build, modulefinder, nodes as n, options as o, types as mt
from mypy.expandtype import expand_type_by_instance
from mypy.maptype import map_instance_to_supertype
from mypy.state import state
from mypy.types import get_proper_type
from mypy.typevars import fill_typevars

from vlib import stdlib, structure

PLATFORM = 'linux'
types_union = type(int | str)


def modules():
    root = Path(mypy.__file__).parent / 'typeshed' / 'stdlib'
    versions = modulefinder.load_stdlib_py_versions(None)
    current = sys.version_info[:2]

    def available(name):
        parts = name.split('.')
        for i in range(len(parts), 0, -1):
            key = '.'.join(parts[:i])
            if key in versions:
                low, high = versions[key]
                if not (low <= current and (high is None
                                            or current <= high)):
                    return False
        return True

    result = []
    for path in sorted(root.rglob('*.pyi')):
        parts = list(path.relative_to(root).with_suffix('').parts)
        if parts[-1] == '__init__':
            parts.pop()
        if available('.'.join(parts)):
            result.append('.'.join(parts))
    return result


class Stubs:
    def variable(self, node, owner):
        """functions that variable refers to, class it belongs to"""
        if not self.assigned:
            for file in self.files.values():
                self.assigned.update(assignments(file))
        if node.type is not None:
            type_ = get_proper_type(node.type)
            if isinstance(type_, mt.CallableType) and owner is None:
                return [Declared(node)], None
            if (isinstance(type_, mt.Instance) and not type_.args
                    and owner is None):
                symbol = type_.type.get('__call__')
                found = functions(symbol.node) if symbol else []
                return (list(map(Called, found)), None) if found else None
            return None
        value = self.assigned.get(id(node))
        seen = 0
        while isinstance(value, n.RefExpr) and seen < 9:
            seen += 1
            if isinstance(value.node, n.Var):
                if value.node.type is not None:
                    return self.variable(value.node, owner)
                value = self.assigned.get(id(value.node))
                continue
            found = functions(value.node)
            if not found:
                return None
            home = found[0].info or None
            # aliases of members of other classes may be bound or not
            return (found, owner) if home is owner else None
        return None

    def __init__(self):
        self.assigned = {}
        settings = o.Options()
        settings.incremental = False
        settings.cache_dir = os.devnull
        settings.python_version = sys.version_info[:2]
        settings.platform = PLATFORM
        settings.preserve_asts = True
        settings.semantic_analysis_only = True
        settings.ignore_errors = True
        self.modules = modules()
        self.files = build.build(
                [modulefinder.BuildSource(None, m, None)
                 for m in self.modules], settings).files

    # -- declarations ----------------------------------------------------
    def lookup(self, module, path):
        """(node, class that declares it or None)"""
        symbol, owner = self.symbol(module, path)
        if symbol is None or symbol.node is None:
            return None, None
        return unaliased(symbol.node), owner

    def symbol(self, module, path):
        current, owner = self.files.get(module), None
        if current is None:
            return None, None
        for part in path:
            current = unaliased(current)
            if isinstance(current, n.MypyFile):
                symbol = current.names.get(part)
                owner = None
            elif isinstance(current, n.TypeInfo):
                symbol, owner = None, None
                for base in current.mro:
                    if part in base.names:
                        symbol, owner = base.names[part], base
                        break
            else:
                return None, None
            if symbol is None or symbol.node is None:
                return None, None
            current = symbol.node
        return symbol, owner


class Declared:
    """what ``Callable[...]`` tells about the variable annotated by it"""
    is_static = is_class = is_coroutine = False

    def __init__(self, variable):
        self.name, self.type = variable.name, get_proper_type(variable.type)
        self.arguments = [
            n.Argument(n.Var({n.ARG_STAR: 'args', n.ARG_STAR2: 'kwargs'}
                             .get(kind, f'_{index}')), None, None, kind)
            for index, kind in enumerate(self.type.arg_kinds)]


class Called:
    """method ``__call__`` of the object that variable refers to"""
    is_static = is_class = False

    def __init__(self, function):
        self.name, self.is_coroutine = function.name, function.is_coroutine
        self.arguments = function.arguments[1:]
        self.type = function.type
        if self.type is not None:
            self.type = self.type.copy_modified(
                    arg_types=self.type.arg_types[1:],
                    arg_kinds=self.type.arg_kinds[1:],
                    arg_names=self.type.arg_names[1:])


def assignments(file):
    """id of variable -> what is assigned to it"""
    result = {}

    def visit(statements):
        for statement in statements:
            if isinstance(statement, n.AssignmentStmt):
                for target in statement.lvalues:
                    if isinstance(target, n.NameExpr):
                        result[id(target.node)] = statement.rvalue
            elif isinstance(statement, n.ClassDef):
                visit(statement.defs.body)
            elif isinstance(statement, n.IfStmt):
                for block in [*statement.body, statement.else_body]:
                    if block is not None and not block.is_unreachable:
                        visit(block.body)

    visit(file.defs)
    return result


def unaliased(node):
    if isinstance(node, n.TypeAlias) and not node.alias_tvars:
        target = get_proper_type(node.target)
        if isinstance(target, mt.Instance):
            return target.type
        if isinstance(target, mt.TupleType):
            return target.partial_fallback.type
        if isinstance(target, mt.TypedDictType):
            return target.fallback.type
    elif isinstance(node, n.TypeAlias):
        target = get_proper_type(node.target)
        if isinstance(target, mt.Instance):
            return target.type
    return node


def functions(node):
    """overloads, in order"""
    if isinstance(node, n.FuncDef):
        return [node]
    if isinstance(node, n.Decorator):
        if any(isinstance(d, (n.NameExpr, n.MemberExpr))
               and d.name in ('property', 'cached_property')
               for d in node.original_decorators):
            return []
        return [node.func]
    if isinstance(node, n.OverloadedFuncDef):
        if node.is_property:
            return []
        return [f for item in node.items for f in functions(item)]
    return []


def constructor(info):
    """(functions, class that declares them, name) found first along MRO"""
    for base in info.mro:
        for name in ('__init__', '__new__'):
            if name in base.names:
                found = functions(base.names[name].node)
                if found:
                    return found, base, name
    return [], None, None


KINDS = {n.ARG_POS: 'P', n.ARG_OPT: 'P', n.ARG_STAR: '*', n.ARG_STAR2: '**',
         n.ARG_NAMED: 'K', n.ARG_NAMED_OPT: 'K'}


def outline(function, dropped=0):
    """names, kinds and optionality of parameters"""
    return tuple((a.variable.name, KINDS[a.kind],
                  'r' if a.kind in (n.ARG_POS, n.ARG_NAMED) else 'o')
                 for a in function.arguments[dropped:])


def outline_of(signature, base):
    """the same for signatures of the library"""
    K = base.ParameterKind
    kinds = {K.POSITIONAL_ONLY: 'P', K.POSITIONAL_OR_KEYWORD: 'P',
             K.VARIADIC_POSITIONAL: '*', K.KEYWORD_ONLY: 'K',
             K.VARIADIC_KEYWORD: '**'}
    return [tuple((p.name, kinds[p.kind],
                   'r' if isinstance(p, base.RequiredParameter) else 'o')
                  for p in s.parameters)
            for s in getattr(signature, 'signatures', (signature,))]


# -- types ---------------------------------------------------------------
class Undecided(Exception):
    pass


@functools.lru_cache(None)
def runtime(fullname):
    """runtime object that the stub's name denotes"""
    parts = fullname.split('.')
    for i in range(len(parts) - 1, 0, -1):
        name = '.'.join(parts[:i])
        if name.split('.')[0] in stdlib.SKIP:
            raise Undecided(name)
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(
                    io.StringIO()):
                warnings.simplefilter('ignore')
                value = importlib.import_module(name)
        except BaseException:
            continue
        try:
            for part in parts[i:]:
                value = getattr(value, part)
        except AttributeError:
            return None
        return value
    return None


def subscriptable(cls):
    return (hasattr(cls, '__class_getitem__')
            or hasattr(type(cls), '__getitem__')
            or not isinstance(cls, type))


def annotation(value, stack=()):
    """description of mypy's type in terms of vlib.structure; what a runtime
    class cannot express is left out"""
    value = get_proper_type_or_fail(value, stack)

    def sub(v):
        return annotation(v, stack)

    if isinstance(value, mt.AnyType):
        if value.type_of_any not in (mt.TypeOfAny.unannotated,
                                     mt.TypeOfAny.explicit,
                                     mt.TypeOfAny.special_form,
                                     mt.TypeOfAny.from_omitted_generics):
            raise Undecided(f'Any {value.type_of_any}')
        return 'any'
    if isinstance(value, mt.NoneType):
        return 'class:builtins.NoneType'
    if isinstance(value, mt.UninhabitedType):
        return 'special:NoReturn'
    if isinstance(value, mt.Instance):
        if value.last_known_value is not None:
            raise Undecided('last known value')
        return instance(value.type, value.args, stack)
    if isinstance(value, mt.TupleType):
        fallback = value.partial_fallback.type
        if fallback.fullname != 'builtins.tuple':
            if fallback.is_named_tuple and fallback.type_vars:
                raise Undecided('generic named tuple')
            return instance(fallback, (), stack)
        return ('class:builtins.tuple'
                + (f'[{", ".join(map(sub, value.items))}]'
                   if value.items else ''))
    if isinstance(value, mt.TypedDictType):
        return instance(value.fallback.type, (), stack)
    if isinstance(value, mt.UnionType):
        parts = []
        for item in value.items:
            item = get_proper_type_or_fail(item, stack)
            parts += (item.items if isinstance(item, mt.UnionType)
                      else [item])
        return union(map(sub, parts))
    if isinstance(value, mt.LiteralType):
        return f'literal[{literal(value)}]'
    if isinstance(value, mt.TypeType):
        return f'class:builtins.type[{sub(value.item)}]'
    if isinstance(value, mt.TypeVarType):
        if value.name == 'Self' or value.fullname == '_typeshed.Self':
            return 'self'
        return type_var(value, stack)
    if isinstance(value, mt.ParamSpecType):
        return {0: f'paramspec:{value.name}',
                1: f'ParamSpecArgs:{value.name}',
                2: f'ParamSpecKwargs:{value.name}'}[value.flavor]
    if isinstance(value, mt.CallableType):
        returns = sub(value.ret_type)
        if value.type_guard is not None:
            returns = f'special:typing.TypeGuard[{sub(value.type_guard)}]'
        if value.is_ellipsis_args:
            return f'callable[..., {returns}]'
        if value.arg_kinds[-2:] == [n.ARG_STAR, n.ARG_STAR2]:
            spec = get_proper_type(value.arg_types[-2])
            if isinstance(spec, mt.ParamSpecType):
                head = list(map(sub, value.arg_types[:-2]))
                return (f'callable[paramspec:{spec.name}, {returns}]'
                        if not head else
                        f'callable[special:typing.Concatenate['
                        f'{", ".join(head + ["paramspec:" + spec.name])}], '
                        f'{returns}]')
        if all(k == n.ARG_POS for k in value.arg_kinds):
            return (f'callable[({", ".join(map(sub, value.arg_types))}) '
                    f'{returns}]')
    raise Undecided(type(value).__name__)


def get_proper_type_or_fail(value, stack):
    if isinstance(value, mt.TypeAliasType):
        if value.is_recursive:
            raise Undecided('recursive alias')
    return get_proper_type(value)


def union(parts):
    flat, literals = set(), set()
    for p in parts:
        for q in split(p, 'union'):
            if q.startswith('literal['):
                literals.update(split(q, 'literal'))
            else:
                flat.add(q)
    if 'class:builtins.object' in flat:
        return 'class:builtins.object'
    if literals:
        flat.add(f'literal[{", ".join(sorted(literals))}]')
    return flat.pop() if len(flat) == 1 else f'union[{", ".join(sorted(flat))}]'


def split(text, kind):
    """members of union or literal"""
    if not text.startswith(kind + '['):
        return [text]
    text = text[len(kind) + 1:-1]
    if kind == 'literal':
        return re.findall(r"""\w[\w.]*:(?:b?'[^']*'|b?"[^"]*"|[^,]+)|[\w.]+""",
                          text)
    parts, depth, start = [], 0, 0
    for i, c in enumerate(text):
        if c in '[(<':
            depth += 1
        elif c in '])>':
            depth -= 1
        elif c == ',' and not depth:
            parts.append(text[start:i].strip())
            start = i + 1
    return parts + [text[start:].strip()]


def literal(value):
    if value.fallback.type.is_enum:
        cls = runtime(value.fallback.type.fullname)
        return structure.literal(cls[value.value])
    v = value.value
    if value.fallback.type.fullname == 'builtins.bytes':
        v = eval('b' + repr(v))
    return structure.literal(v)


def instance(info, args, stack):
    fullname = info.fullname
    if fullname in ('typing.Any', 'typing_extensions.Any'):
        return 'any'
    cls = runtime(fullname)
    if not info.is_newtype and isinstance(
            cls, (typing.TypeVar, typing._SpecialForm)) or (
            not info.is_newtype and cls is not None and not isinstance(
                cls, (type, typing._SpecialGenericAlias))
            and not callable(cls)):
        raise Undecided(fullname)
    if info.is_newtype:
        return (f'newtype:{info.name}'
                f'[{instance(info.bases[0].type, (), stack)}]')
    if cls is None:
        return f'class:?.{info.name}'
    origin = (cls.__origin__ if isinstance(cls, typing._SpecialGenericAlias)
              else cls)
    if not isinstance(origin, type):
        raise Undecided(fullname)
    head = f'class:{structure.class_name(origin)}'
    proper = [get_proper_type_or_fail(a, stack) for a in args]
    if not args or all(
            isinstance(a, mt.AnyType)
            and a.type_of_any == mt.TypeOfAny.from_omitted_generics
            for a in proper):
        return head
    if not subscriptable(cls):
        return head
    inner = [annotation(a, stack) for a in args]
    if fullname == 'builtins.tuple':
        inner.append('...')
    return f'{head}[{", ".join(inner)}]'


def type_var(value, stack):
    if value.fullname in stack:
        return f'typevar:{value.name}'
    stack = (*stack, value.fullname)
    variance = {n.INVARIANT: '', n.COVARIANT: 'co',
                n.CONTRAVARIANT: 'contra'}[value.variance]
    bound = get_proper_type(value.upper_bound)
    parts = []
    if not (isinstance(bound, mt.Instance)
            and bound.type.fullname == 'builtins.object'):
        parts.append(f'bound={annotation(bound, stack)}')
    parts += sorted(annotation(v, stack) for v in value.values)
    return f'typevar:{value.name}<{variance}>[{", ".join(parts)}]'


def exposed(value, stack=(), *, placeholder='paradigm'):
    """description of an exposed annotation in the same terms; classes that
    exist only in stubs are defined by the library's modules"""

    def sub(v):
        return exposed(v, stack)

    def many(values):
        return ', '.join(map(sub, values))

    def class_(cls):
        if cls.__module__.split('.')[0] == placeholder:
            return f'class:?.{cls.__qualname__.split(".")[-1]}'
        return f'class:{structure.class_name(cls)}'

    if value is None:
        return 'class:builtins.NoneType'
    if isinstance(value, typing.TypeVar):
        if value in stack:
            return f'typevar:{value.__name__}'
        stack = (*stack, value)
        parts = ([f'bound={sub(value.__bound__)}']
                 if value.__bound__ is not None else [])
        parts += sorted(map(sub, value.__constraints__))
        variance = structure.VARIANCES.get((value.__covariant__,
                                            value.__contravariant__),
                                           'infer')
        return f'typevar:{value.__name__}<{variance}>[{", ".join(parts)}]'
    if isinstance(value, structure.PARAM_SPECS):
        return f'paramspec:{value.__name__}'
    if isinstance(value, (typing.ParamSpecArgs, typing.ParamSpecKwargs)):
        return f'{type(value).__name__}:{value.__origin__.__name__}'
    if value in (typing.LiteralString, typing_extensions.LiteralString):
        return 'class:builtins.str'
    if value in (typing.Any, typing_extensions.Any):
        return 'any'
    if value in (typing.Self, typing_extensions.Self):
        return 'self'
    if value in (typing.NoReturn, typing.Never, typing_extensions.NoReturn,
                 typing_extensions.Never):
        return 'special:NoReturn'
    origin, args = typing.get_origin(value), typing.get_args(value)
    if isinstance(value, dataclasses.InitVar):
        return f'class:dataclasses.InitVar[{sub(value.type)}]'
    if origin is None:
        return (class_(value) if isinstance(value, type)
                else structure.annotation(value))
    if origin in (typing.Union, types_union):
        return union(map(sub, args))
    if origin in (typing.Literal, typing_extensions.Literal):
        return union('class:builtins.NoneType' if a is None
                     else f'literal[{structure.literal(a)}]' for a in args)
    if origin is abc.Callable and len(args) == 2:
        returns = sub(args[1])
        if isinstance(args[0], list):
            return f'callable[({many(args[0])}) {returns}]'
        if args[0] is ...:
            return f'callable[..., {returns}]'
        if typing.get_origin(args[0]) in (typing.Concatenate,
                                          typing_extensions.Concatenate):
            return (f'callable[special:typing.Concatenate['
                    f'{many(typing.get_args(args[0]))}], {returns}]')
        return f'callable[{sub(args[0])}, {returns}]'
    if isinstance(origin, type):
        head = class_(origin)
        return head + (f'[{many(args)}]'
                       if args and not head.startswith('class:?') else '')
    return f'special:{origin!r}[{many(args)}]'


def specialized(function, info=None, owner=None):
    """type of function as member of the class that inherits it"""
    if function.type is None or info is None or owner is None \
            or info is owner or not owner.type_vars:
        return function.type
    itself = fill_typevars(info)
    if not isinstance(itself, mt.Instance):
        itself = itself.partial_fallback
    with state.strict_optional_set(True):
        return expand_type_by_instance(
                function.type, map_instance_to_supertype(itself, owner))


def returned(function, owner=None, signature=None):
    """descriptions of what is written after the arrow"""
    signature = function.type if signature is None else signature
    if signature is None:
        return ['any']
    if signature.type_guard is not None:
        return [f'special:{typing.TypeGuard!r}'
                f'[{annotation(signature.type_guard)}]']
    value = signature.ret_type
    if function.is_coroutine:
        value = get_proper_type(value).args[-1]
    return finalized(value, owner)


def finalized(value, owner):
    """mypy replaces Self in final classes by the class"""
    result = [annotation(value)]
    if owner is not None and owner.is_final:
        value = get_proper_type(value)
        if isinstance(value, mt.Instance) and value.type is owner or (
                isinstance(value, mt.TupleType)
                and value.partial_fallback.type is owner):
            result.append('self')
    return result


def default(expression, module):
    """('value', object) / ('none',) for '...' / raises Undecided"""
    e = expression
    if isinstance(e, n.EllipsisExpr):
        return ('none',)
    if isinstance(e, (n.IntExpr, n.FloatExpr, n.ComplexExpr)):
        return ('value', e.value)
    if isinstance(e, n.StrExpr):
        return ('value', e.value)
    if isinstance(e, n.BytesExpr):
        return ('value', eval("b'" + e.value.replace("'", "\\'") + "'"))
    if isinstance(e, n.UnaryExpr) and e.op in '-+~':
        kind, *rest = default(e.expr, module)
        if kind == 'value':
            return ('value', {'-': lambda x: -x, '+': lambda x: +x,
                              '~': lambda x: ~x}[e.op](rest[0]))
    if isinstance(e, n.TupleExpr):
        return ('value', tuple(default(i, module)[1] for i in e.items))
    if isinstance(e, (n.NameExpr, n.MemberExpr)):
        if e.name in ('True', 'False', 'None') and isinstance(e, n.NameExpr):
            return ('value', {'True': True, 'False': False,
                              'None': None}[e.name])
        value = runtime(e.fullname or '')
        if value is not None:
            return ('value', value)
    raise Undecided(type(e).__name__)
