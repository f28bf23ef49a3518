"""Callables reachable in the importable standard library."""
import builtins
import importlib
import io
import os
import sys
import warnings

# importing these has visible effects, or needs a display / other platform
SKIP = ('antigravity', 'this', 'idlelib', 'turtledemo', 'turtle', 'tkinter',
        'test', 'lib2to3', '__main__', 'crypt', 'ensurepip', 'venv',
        '_pyrepl', 'pip', 'setuptools')
SKIP_FULL = {'asyncio.windows_events', 'asyncio.windows_utils',
             'ctypes.wintypes', 'encodings.mbcs', 'encodings.oem',
             'multiprocessing.popen_spawn_win32', 'rlcompleter'}


def module_names():
    result = set()
    for name in sys.stdlib_module_names:
        if name.split('.')[0] in SKIP:
            continue
        result.add(name)
    base = os.path.dirname(os.__file__)
    for directory, subdirectories, files in os.walk(base):
        relative = os.path.relpath(directory, base)
        top = relative.split(os.sep)[0]
        if relative == '.':
            subdirectories[:] = [
                d for d in subdirectories
                if d in sys.stdlib_module_names and d not in SKIP]
            continue
        subdirectories[:] = [
            d for d in subdirectories
            if d not in ('__pycache__', 'test', 'tests', 'idle_test')]
        package = relative.replace(os.sep, '.')
        result.add(package)
        result.update(package + '.' + f[:-3] for f in files
                      if f.endswith('.py') and not f.startswith('__'))
    return sorted(n for n in result
                  if n not in SKIP_FULL and '.__' not in n
                  and n.split('.')[0] not in SKIP
                  and not n.startswith('_sysconfigdata'))


def import_all(names=None):
    warnings.simplefilter('ignore')
    result = []
    stdout, sys.stdout = sys.stdout, io.StringIO()
    try:
        for name in names or module_names():
            try:
                result.append(importlib.import_module(name))
            except BaseException:
                pass
    finally:
        sys.stdout = stdout
    return result


def walk(modules, *, inherited=False):
    """access path -> callable, for attributes of modules and of the classes
    in them"""
    result = {}

    def visit(owner, prefix, seen):
        for name, value in sorted(vars(owner).items()):
            if not isinstance(name, str):
                continue
            path = f'{prefix}.{name}'
            if isinstance(value, (staticmethod, classmethod)):
                value = getattr(owner, name)
            if callable(value):
                result.setdefault(path, value)
            if isinstance(value, type) and value not in seen and (
                    value.__module__ == root.__name__
                    or getattr(value, '__module__', None) == 'builtins'
                    and root is builtins):
                visit(value, path, seen | {value})

    for root in modules:
        visit(root, root.__name__, frozenset())
    return result
