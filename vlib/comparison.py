"""Dumps of signatures by separate processes, and their comparison."""
import json
import os
import shutil
from pathlib import Path

SITE = Path(__file__).with_name('site')
TRACEBACK = 'Traceback (most recent call last)'


def instrumented(ctx, root, **extra):
    """environment in which sitecustomize of ours is in effect"""
    env = ctx.env(root, **extra)
    env['PYTHONPATH'] = os.pathsep.join([str(SITE), env['PYTHONPATH']])
    return env


def dump(ctx, root, name, *options, timeout=200, flags=(), cwd=None,
         user=None, **env):
    """(dump or None, code or None on timeout, stderr)"""
    out = ctx.scratch / f'dump-{name}.json'
    if user is not None:
        directory = ctx.scratch / f'out-{name}'
        directory.mkdir()
        os.chown(directory, user, user)
        out = directory / out.name
    if ctx.hangs > 2:
        return None, 'skipped', 'others hang'
    special = any(k.startswith('VERIF_') for k in env)
    code, so, se, _ = ctx.run(
            [ctx.python, *flags, '-m', 'vlib.dump', out, *options],
            env=(instrumented(ctx, root, **env) if special
                 else ctx.env(root, **env)),
            timeout=timeout, cwd=cwd, user=user)
    if code == 0 and out.exists():
        result = json.loads(out.read_text())
        out.unlink()
        result['stdout'], result['stderr'] = so, se
        return result, code, se
    ctx.hangs += code is None
    return None, code, se


def failed(mon, key, label, code, err, *, hangs=False):
    """judges a process without dump; returns text for ``error`` of report"""
    if code is None:
        if hangs:
            mon.violation(f'{key}:hang', f'{label}: no end\n{err[-1500:]}')
            return None
        return f'{label}: time is out\n{err[-1500:]}'
    if TRACEBACK in err and 'paradigm' in err.partition(TRACEBACK)[2]:
        mon.violation(f'{key}:failure', f'{label}: exit {code}\n'
                                        f'{err[-2500:]}')
        return None
    return f'{label}: exit {code}\n{err[-1500:]}'


def compare(mon, reference, other, key, label, *, event='compared'):
    differences = []
    for path, text in other['texts'].items():
        expected = reference['texts'].get(path)
        if expected is None:
            continue
        mon.event(event)
        if expected != text:
            differences.append((path, expected, text))
        mon.case((path, text))
    for path, expected, text in differences[:5]:
        mon.violation(f'{key}:{path}', f'{label} ({len(differences)} differ)'
                                       f': {path}: expected {expected[:1200]}'
                                       f'\ngot {text[:1200]}')
    for path, problem in sorted(other['problems'].items())[:5]:
        mon.violation(f'{key}:{path}', f'{label}: {problem[:2500]}')
    return not differences and not other['problems']


def caches(ctx, root):
    """files in the package which are not its sources"""
    sources = set(ctx.sources())
    return sorted(p for p in (root / 'paradigm').rglob('*')
                  if p.is_file() and '__pycache__' not in p.parts
                  and str(p.relative_to(root)) not in sources)


def states(paths):
    result = {}
    for p in paths:
        stat = p.stat()
        result[p.name] = (stat.st_ino, stat.st_mtime_ns, stat.st_size,
                          p.read_bytes())
    return result


def copy(ctx, template, name, *, bytecode=True):
    """copy of the installation with its times preserved"""
    root = ctx.scratch / name
    shutil.copytree(template, root, symlinks=True,
                    ignore=None if bytecode
                    else shutil.ignore_patterns('__pycache__'))
    return root


def bytecode_of(path):
    return sorted((path.parent / '__pycache__').glob(path.stem + '.*'))


def warned(data):
    """warnings of category used to report failures"""
    return [message for category, message in data['warnings']
            if category == 'UserWarning']
