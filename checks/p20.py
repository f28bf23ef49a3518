"""Faults injected while caches are being written."""
import errno
import json
import os
import random
import shutil
from concurrent.futures import ThreadPoolExecutor

from vlib import comparison
from vlib.drive import VERIF
from vlib.monitor import Monitor

RULE = ('case = fault while caches are being written (file size limit '
        'reached at generated offsets, open / rename / remove refused with '
        'generated errno for n-th file of the package opened for writing, '
        'unprivileged user and read-only installation, read-only or '
        'occupied cache paths, failing byte-compilation), first import '
        'under it: outcome, UserWarning naming the cache, signatures as '
        'usual; then imports on a working file system: same signatures, no '
        'warnings, caches complete and not written again')
MINIMUM = {'fault': 26, 'warned': 20, 'compared': 40000, 'recovered': 24,
           'kept': 24}
LIMITS = {'quick': 7, 'thorough': 80}
REFUSALS = {'quick': 8, 'thorough': 60}
SAMPLE = 500
NOBODY = 65534


def is_same(path, content):
    try:
        return path.read_bytes() == content
    except OSError:
        return False


def drive(ctx):
    mon, errors = Monitor(), []
    rnd = random.Random(ctx.seed)
    template = ctx.warm(ctx.fresh_root('template'))
    caches = comparison.caches(ctx, template)
    reference, code, err = comparison.dump(ctx, template, 'reference',
                                           '--sample', SAMPLE)
    if reference is None:
        error = comparison.failed(mon, 'reference', 'reference', code, err)
        return [mon.report(error)]
    sizes = [p.stat().st_size for p in caches]
    for path in caches:
        for p in comparison.bytecode_of(path):
            p.unlink()
    contents = {p: p.read_bytes() for p in caches}
    for path in caches:
        path.unlink()
    os.chmod(ctx.scratch, 0o755)
    library = ctx.scratch / 'library'
    shutil.copytree(VERIF / 'vlib', library / 'vlib',
                    ignore=shutil.ignore_patterns('__pycache__'))

    # (kind, label, prepare(root), options of dump, restore(root),
    #  caches that cannot be written)
    scenarios = []

    def nothing(root):
        pass

    def add(kind, label, *, prepare=nothing, restore=nothing,
            affected=(), **options):
        scenarios.append((kind, label, prepare, restore, affected,
                          options))

    limits = {0, 1, 8192, min(sizes) - 1, max(sizes) - 1}
    while len(limits) < 3 + LIMITS[ctx.tier]:
        limits.add(rnd.choice([rnd.randrange(max(sizes)),
                               rnd.randrange(min(sizes))]))
    for limit in sorted(limits):
        add('space', f'no space after {limit} bytes', VERIF_FSIZE=limit,
            affected=[p.name for p, c in contents.items()
                      if len(c) > limit])
    writing = r'(w|a|x|None) \d*$'
    numbers = [errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE,
               errno.EIO, errno.EDQUOT, errno.EPERM, errno.EINVAL]
    core = 'paradigm/_core/[^/]*'
    for i in range(REFUSALS[ctx.tier]):
        number = numbers[i % len(numbers)]
        path = rnd.choice(caches)
        match, affected = [
            (f'{path.stem}.* (w|a|x|r\\+|w\\+)', [path.name]),
            (f'{core} (w|a|x)', [p.name for p in caches]),
        ][i % 2]
        fault = {'where': 'main', 'event': 'open', 'match': match, 'nth': 0,
                 'how': f'oserror:{number}'}
        add('open', f'{errno.errorcode[number]} for {match}',
            affected=affected, VERIF_FAULT=json.dumps([fault]))
    for path in caches:
        # as hooks of security monitors and exhausted memory do
        how = rnd.choice(['raise', 'memory', 'odd'])
        fault = {'where': 'main', 'event': 'open', 'nth': 0,
                 'match': f'{path.stem}.* (w|a|x|r\\+|w\\+)', 'how': how}
        add('open', f'{how} for {path.name}', affected=[path.name],
            VERIF_FAULT=json.dumps([fault]))
    for number in (errno.EACCES, errno.EROFS):
        # writing of bytecode fails; it is made of any kind of temporary file
        fault = {'where': 'main', 'event': 'open', 'nth': 0,
                 'match': r'__pycache__/\S*pyc\S* ',
                 'how': f'oserror:{number}'}
        add('bytecode', f'{errno.errorcode[number]} for bytecode',
            VERIF_FAULT=json.dumps([fault]))
    for event in ('os.mkdir', 'os.rename'):
        fault = {'where': 'main', 'event': event, 'nth': 0,
                 'match': r'__pycache__', 'how': 'oserror:13'}
        add('bytecode', f'{event} fails',
            prepare=lambda root: shutil.rmtree(
                    root / 'paradigm' / '_core' / '__pycache__'),
            VERIF_FAULT=json.dumps([fault]))
    for fault_event, match in (('compile', r'mypy'), ('compile', r'_mypy')):
        for how in ('memory', 'raise'):
            fault = {'where': 'main', 'event': fault_event, 'nth': 0,
                     'match': match, 'how': how}
            add('compile', f'{fault_event} {match} {how}', affected=None,
                VERIF_FAULT=json.dumps([fault]))

    def occupy(root):
        for path in caches:
            (root / path.relative_to(template)).mkdir()

    def vacate(root):
        for path in caches:
            target = root / path.relative_to(template)
            if target.is_dir():
                shutil.rmtree(target)

    add('occupied', 'directories at paths of caches', prepare=occupy,
        restore=vacate, affected=[p.name for p in caches])

    def dangling(root):
        for path in caches:
            os.symlink('/no/such/directory/file',
                       root / path.relative_to(template))

    def unlink(root):
        for path in caches:
            target = root / path.relative_to(template)
            if target.is_symlink():
                target.unlink()

    add('occupied', 'dangling links at paths of caches', prepare=dangling,
        restore=unlink, affected=[p.name for p in caches])

    def file_instead(root):
        directory = root / 'paradigm' / '_core' / '__pycache__'
        shutil.rmtree(directory)
        directory.write_text('')

    def directory_again(root):
        (root / 'paradigm' / '_core' / '__pycache__').unlink()

    add('bytecode', 'file at path of directory of bytecode',
        prepare=file_instead, restore=directory_again)

    def own(root, user):
        for directory, _, files in os.walk(root):
            os.chown(directory, user, user)
            os.chmod(directory, 0o755)
            for f in files:
                os.chown(os.path.join(directory, f), user, user)

    def foreign_files(root):
        own(root, 0)
        for path in caches:
            target = root / path.relative_to(template)
            target.write_bytes(b'broken (')
            os.chmod(target, 0o444)

    privileged = os.geteuid() == 0
    if privileged:
        everything = [p.name for p in caches]
        add('permission', 'read-only installation of another user',
            prepare=lambda root: own(root, 0), affected=everything,
            user=NOBODY)
        add('permission', 'caches broken and read-only',
            prepare=foreign_files, affected=everything, user=NOBODY)

        def readonly_directories(root):
            own(root, NOBODY)
            for directory, _, _ in os.walk(root):
                os.chmod(directory, 0o555)

        add('permission', 'read-only directories',
            prepare=readonly_directories, affected=everything, user=NOBODY,
            restore=lambda root: own(root, NOBODY))
        add('permission', 'no problems for another user',
            prepare=lambda root: own(root, NOBODY), user=NOBODY)

    def judge(i):
        kind, label, prepare, restore, affected, options = scenarios[i]
        root = comparison.copy(ctx, template, f'fault{i}')
        options = dict(options)
        user = options.get('user')
        try:
            prepare(root)
            if user is not None:
                options['PYTHONPATH'] = os.pathsep.join(
                        [str(root), str(library)])
                options['HOME'] = '/nonexistent'
            files = [root / p.relative_to(template) for p in caches]
            faulty = comparison.dump(ctx, root, f'{i}-faulty', '--sample',
                                     SAMPLE, **options)
            # faults do not have to hit the way the caches are written
            saved = {p.name for p in caches
                     if is_same(root / p.relative_to(template), contents[p])}
            restore(root)
            again = []
            for step in range(2):
                before = comparison.states([p for p in files if p.is_file()])
                dumped = comparison.dump(ctx, root, f'{i}-{step}', '--sample',
                                         SAMPLE)
                after = comparison.states([p for p in files if p.is_file()])
                again.append((dumped, before, after))
            return faulty, saved, again
        finally:
            shutil.rmtree(root)

    with ThreadPoolExecutor(ctx.cpus) as pool:
        for (kind, label, _, _, affected, _), (faulty, saved, again) in zip(
                scenarios, pool.map(judge, range(len(scenarios)))):
            mon.event('fault')
            data, code, err = faulty
            mon.case((kind, label, 'faulty'), sample=f'{kind}: {label}')
            if data is None:
                errors.append(comparison.failed(
                        mon, f'import:{kind}', label, code, err, hangs=True))
            else:
                comparison.compare(mon, reference, data, f'differs:{kind}',
                                   label)
                messages = comparison.warned(data)
                if affected is not None:
                    for name in affected:
                        if name in saved:
                            mon.event('saved despite the fault')
                            continue
                        mon.event('warned')
                        mon.expect(any(name in m for m in messages),
                                   f'no-warning:{kind}',
                                   lambda: f'{label}: nothing about {name} '
                                           f'in {data["warnings"]}')
                    if not affected and kind != 'bytecode':
                        mon.expect(not messages, f'warning:{kind}',
                                   lambda: f'{label}: {messages}')
            for step, ((data, code, err), before, after) in enumerate(again):
                name = f'after {label}, import {step + 1}'
                mon.case((kind, label, step))
                if data is None:
                    errors.append(comparison.failed(
                            mon, f'recovery:{kind}', name, code, err,
                            hangs=True))
                    continue
                comparison.compare(mon, reference, data,
                                   f'recovery:{kind}', name)
                mon.expect(not comparison.warned(data), f'recovery:{kind}',
                           lambda: f'{name}: {data["warnings"]}')
                mon.expect(len(after) == len(caches), f'recovery:{kind}',
                           lambda: f'{name}: caches {sorted(after)}')
                if step:
                    mon.expect(before == after, f'recovery:{kind}',
                               lambda: f'{name}: caches are written again')
                    mon.event('kept')
                else:
                    mon.event('recovered')
    return [mon.report(next(filter(None, errors), None))]
