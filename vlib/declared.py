"""Pairs runtime objects of the standard library with their declarations in
the bundled stubs (as mypy reads them)."""
import collections
import inspect
import types

from mypy import nodes as n

from vlib import stdlib, typeshed

FUNCTIONS = (types.FunctionType, types.BuiltinFunctionType,
             types.MethodDescriptorType, types.WrapperDescriptorType,
             types.MethodWrapperType, types.MethodType)
BOUND = (types.MethodType, types.MethodWrapperType)
Pair = collections.namedtuple('Pair', 'path value functions bound owned '
                                      'owner module')
ClassPair = collections.namedtuple('ClassPair', 'path value info')


def unwrapped(value):
    while isinstance(value, (staticmethod, classmethod, types.MethodType)):
        value = value.__func__
    return value


def same(left, right):
    left, right = unwrapped(left), unwrapped(right)
    return (left is right
            or isinstance(left, types.BuiltinFunctionType)
            and isinstance(right, types.BuiltinFunctionType)
            and left.__self__ is right.__self__ and left == right)


def provided(owner, name, value):
    """whether the runtime class (or module) has that very object"""
    try:
        return same(inspect.getattr_static(owner, name), value)
    except AttributeError:
        return False


def is_bound_builtin(value):
    """method bound to an object that is neither module nor class"""
    return (isinstance(value, types.MethodWrapperType)
            or isinstance(value, types.BuiltinFunctionType)
            and value.__self__ is not None
            and not isinstance(value.__self__, (types.ModuleType, type)))


def self_path(value):
    """where the object says that it is defined"""
    if isinstance(value, types.MethodType):
        value = value.__func__
    owner = getattr(value, '__objclass__', None)
    if owner is None and isinstance(value, types.BuiltinFunctionType) \
            and isinstance(value.__self__, type):
        owner = value.__self__
    if isinstance(owner, type):
        return owner.__module__, [*owner.__qualname__.split('.'),
                                  value.__name__]
    module, name = (getattr(value, '__module__', None),
                    getattr(value, '__qualname__', None))
    if not isinstance(module, str) or not isinstance(name, str):
        return None
    return module, name.split('.')


def reach(modules, module, path):
    """(object that has the last attribute, the attribute's raw value)"""
    owner = modules.get(module)
    if owner is None:
        return None, None
    try:
        for part in path[:-1]:
            owner = getattr(owner, part)
        return owner, inspect.getattr_static(owner, path[-1])
    except (AttributeError, TypeError):
        return None, None


def may_be_runtime(candidates):
    """stubs say nothing specific about methods declared for all objects"""
    return any(c.owner is None or c.owner.fullname == 'builtins.object'
               or c.path.endswith('.__new__') for c in candidates)


def synthesized(info, name):
    symbol = info.names.get(name)
    return symbol is not None and symbol.plugin_generated


class Declarations:
    def __init__(self):
        self.stubs = typeshed.Stubs()
        modules = stdlib.import_all()
        self.modules = {m.__name__: m for m in modules}
        self.pool = stdlib.walk(modules)

    def split(self, path):
        parts = path.split('.')
        for i in range(len(parts) - 1, 0, -1):
            name = '.'.join(parts[:i])
            if name in self.modules:
                return name, parts[i:]
        return None

    def find(self, module, path):
        """(functions, class that declares them)"""
        if module not in self.stubs.files:
            return None
        symbol, owner = self.stubs.symbol(module, path)
        if symbol is None or symbol.node is None or symbol.plugin_generated:
            return None
        if isinstance(symbol.node, n.Var):
            return self.stubs.variable(symbol.node, owner)
        found = typeshed.functions(typeshed.unaliased(symbol.node))
        return (found, owner) if found else None

    def callables(self):
        groups, values = collections.defaultdict(list), {}
        for path, value in sorted(self.pool.items()):
            if isinstance(value, type) or not isinstance(value, FUNCTIONS):
                continue
            if isinstance(value, types.MethodType) and not isinstance(
                    value.__func__, types.FunctionType):
                continue
            if is_bound_builtin(value):
                continue
            key = (id(unwrapped(value)) if isinstance(value, types.MethodType)
                   else (id(value.__self__), value.__name__)
                   if isinstance(value, types.BuiltinFunctionType)
                   else id(value))
            if isinstance(value, types.MethodType):
                key = key, id(value.__self__)
            groups[key].append(path)
            values.setdefault(key, value)
        for key, paths in groups.items():
            value = values[key]
            places = [self.split(path) for path in paths]
            own = self_path(value)
            candidates = []
            for index, place in enumerate([own, *places]):
                if place is None:
                    continue
                found = self.find(*place)
                if found is None:
                    continue
                functions, owner = found
                runtime_owner, raw = reach(self.modules, *place)
                if raw is None or not same(raw, value):
                    continue
                if owner is None:
                    owned = True
                else:
                    try:
                        cls = typeshed.runtime(owner.fullname)
                    except typeshed.Undecided:
                        continue
                    owned = (isinstance(cls, type)
                             and place[1][-1] in vars(cls)
                             and same(vars(cls)[place[1][-1]], value))
                candidates.append(Pair(
                        '.'.join([place[0], *place[1]]), value, functions,
                        owner is not None and not functions[0].is_static
                        and (isinstance(value, types.MethodType)
                             or isinstance(value, types.BuiltinFunctionType)
                             and functions[0].is_class), owned,
                        owner, place[0]))
                # definitions say more than variables referring to them
                if index == 0 and not isinstance(functions[0],
                                                 typeshed.Declared):
                    break
            if candidates:
                yield candidates

    def classes(self):
        seen = set()
        for path, value in sorted(self.pool.items()):
            if not isinstance(value, type) or value in seen:
                continue
            seen.add(value)
            places = [(value.__module__, value.__qualname__.split('.')),
                      self.split(path)]
            for place in places:
                if place is None or place[0] not in self.stubs.files:
                    continue
                if reach(self.modules, *place)[1] is not value:
                    continue
                node, _ = self.stubs.lookup(*place)
                if isinstance(node, n.TypeInfo):
                    yield ClassPair('.'.join([place[0], *place[1]]), value,
                                    node)
                    break

    def factories(self):
        """functions that the stubs declare as classes"""
        groups, values = collections.defaultdict(list), {}
        for path, value in sorted(self.pool.items()):
            if isinstance(value, (types.FunctionType,
                                  types.BuiltinFunctionType)):
                groups[id(value)].append(path)
                values[id(value)] = value
        for key, paths in groups.items():
            value, pairs, other = values[key], [], False
            for place in [self_path(value), *map(self.split, paths)]:
                if place is None or place[0] not in self.stubs.files \
                        or reach(self.modules, *place)[1] is not value:
                    continue
                node, _ = self.stubs.lookup(*place)
                if isinstance(node, n.TypeInfo):
                    pairs.append(ClassPair('.'.join([place[0], *place[1]]),
                                           value, node))
                elif node is not None:
                    other = True
            if pairs and not other:
                yield pairs
