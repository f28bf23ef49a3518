"""Installations whose caches are in all kinds of states."""
import ast
import os
import random
import re
import shutil
from concurrent.futures import ThreadPoolExecutor

from vlib import comparison
from vlib.monitor import Monitor

RULE = ('case = state of the caches of an installation (each cache x absent '
        '/ truncated at generated offsets, line and statement ends / '
        'emptied / blank / overwritten by zeros / syntax errors / raising / '
        'without one of its fields / left by another version of the package '
        'and altered / left by an import killed while writing at generated '
        'offsets or at generated events / with truncated, foreign or '
        'missing bytecode / complete), then three imports: outcome and '
        'signatures of each (compared with a fresh build), caches rebuilt '
        'if they were unusable, reused - files not changed, no process '
        'started - afterwards')
MINIMUM = {'state': 40, 'compared': 60000, 'rebuilt': 25, 'reused': 40,
           'killed while writing': 3}
TRUNCATED = {'quick': 4, 'thorough': 60}
KILLED = {'quick': 3, 'thorough': 40}
SAMPLE = 600
STARTED = {'os.fork', 'os.posix_spawn', 'subprocess.Popen', 'os.exec',
           'os.system', 'os.forkpty'}


def drive(ctx):
    import json
    mon, errors = Monitor(), []
    template = ctx.warm(ctx.fresh_root('template'))
    caches = comparison.caches(ctx, template)
    reference, code, err = comparison.dump(ctx, template, 'reference',
                                           '--sample', SAMPLE)
    if reference is None:
        error = comparison.failed(mon, 'reference', 'reference', code, err)
        return [mon.report(error)]
    rnd = random.Random(ctx.seed)
    scenarios = []

    def scenario(kind, cache, name, prepare, *, usable=False):
        scenarios.append((f'{kind}:{cache.name[-10:] if cache else "all"}',
                          f'{name} ({cache.name if cache else "caches"})',
                          prepare, usable))

    def content(transform):
        def prepare(root, path):
            target = root / path.relative_to(template)
            target.write_bytes(transform(target.read_bytes()))

        return prepare

    for path in caches:
        data = path.read_bytes()
        size = len(data)
        relative = path.relative_to(template)

        def add(kind, name, transform, path=path, **options):
            action = content(transform)
            scenario(kind, path, name,
                     lambda root: action(root, path), **options)

        points = {0, 1, size - 1, size - 2, size // 2}
        lines = [m.end() for m in re.finditer(b'\n', data)]
        try:
            nodes = ast.parse(data).body
        except (SyntaxError, ValueError):
            nodes = []
        starts = [0]
        for line in data.splitlines(keepends=True):
            starts.append(starts[-1] + len(line))
        statements = [(starts[n.lineno - 1], starts[n.end_lineno])
                      for n in nodes]
        points.update(rnd.sample(lines, min(len(lines), 2)))
        points.update(end for _, end in statements[:-1])
        points.update(start for start, _ in statements[1:])
        while len(points) < 10 + TRUNCATED[ctx.tier]:
            points.add(rnd.randrange(size))
        points = sorted(p for p in points if 0 <= p < size)
        if ctx.tier == 'quick':
            keep = [0, size - 1, *rnd.sample(points, min(6, len(points)))]
            points = sorted(p for p in points if p in keep)
        for n, point in enumerate(points):
            add('truncated', f'truncated at {point} of {size}',
                lambda d, p=point: d[:p], usable=point >= size - 1)
        add('blank', 'blank', lambda d: b'\n')
        add('zeros', 'zeros', lambda d: bytes(len(d)))
        zero = rnd.randrange(size // 2)
        add('zeros', f'hole at {zero}',
            lambda d, z=zero: d[:z] + bytes(4096) + d[z + 4096:])
        add('garbage', 'not UTF-8', lambda d: b'\xff\xfe\xfa' + d)
        add('garbage', 'syntax', lambda d: d + b'\n)(\n')
        add('garbage', 'raising', lambda d: b'1 / 0\n' + d)
        add('garbage', 'importing', lambda d: b'import no_such_module\n' + d)
        chosen = (statements if ctx.tier == 'thorough'
                  else rnd.sample(statements, min(2, len(statements))))
        for start, end in chosen:
            add('field', f'without {data[start:start + 20]!r}',
                lambda d, s=start, e=end: d[:s] + d[e:])

        def absent(root, path=relative, bytecode=True):
            target = root / path
            target.unlink()
            if bytecode:
                for p in comparison.bytecode_of(target):
                    p.unlink()

        scenario('absent', path, 'absent', absent)
        scenario('absent', path, 'absent with bytecode left',
                 lambda root, f=absent: f(root, bytecode=False))

        def bytecode(action):
            def prepare(root, path=relative):
                for p in comparison.bytecode_of(root / path):
                    action(p)

            return prepare

        scenario('bytecode', path, 'without bytecode',
                 bytecode(lambda p: p.unlink()), usable=True)
        cut = rnd.randrange(1, 500000)
        for name, action in [
            ('emptied bytecode', lambda p: p.write_bytes(b'')),
            ('bytecode header only',
             lambda p: p.write_bytes(p.read_bytes()[:16])),
            (f'bytecode truncated at {cut}',
             lambda p, c=cut: p.write_bytes(p.read_bytes()[:c])),
            ('bytecode of another interpreter',
             lambda p: p.write_bytes(b'\0\0\r\n' + p.read_bytes()[4:])),
        ]:
            scenario('bytecode', path, name, bytecode(action), usable=None)

    def remove_all(root):
        for path in caches:
            target = root / path.relative_to(template)
            target.unlink()
            for p in comparison.bytecode_of(target):
                p.unlink()

    scenario('absent', None, 'all absent', remove_all)
    scenario('complete', None, 'complete', lambda root: None, usable=True)

    # -- caches left by another version ----------------------------------
    current = re.search(r"__version__\s*(?::[^=]*)?=\s*'([^']*)'",
                        (template / 'paradigm' / '__init__.py').read_text()
                        ).group(1)
    stamp = re.compile(f"(['\"]){re.escape(current)}\\1")
    stamped = [p for p in caches
               if stamp.search(p.read_text(encoding='utf-8'))]
    newest, oldest = ['99.0.0', current + '.post1'], ['', '0.0.1']
    versions = [current + '0', current + 'rc1', current + '.1',
                current[:-1], current[:-2], '1' + current, current[1:],
                current[::-1], 'v' + current, f' {current}', '4.10.0',
                '4.2.9', current.replace('.', ','), current + '+local',
                'None', '0']
    versions = [v for v in versions if v != current]
    rnd.shuffle(versions)

    def stale(root, path, version):
        """left by another version having other data"""
        target = root / path.relative_to(template)
        text = target.read_text(encoding='utf-8')
        text = re.sub(r"'(Name\(\\?'|)int'", r"'\1str'", text)
        text = text.replace("Name('int'", "Name('str'")
        for name, other in [('values', 'keys'), ('pop', 'clear'),
                            ('__init__', '__new__')]:
            text = re.sub(f"(['\"]){name}\\1", repr(other), text)
        target.write_text(stamp.sub(lambda _: repr(version), text),
                          encoding='utf-8')

    def older(chosen):
        def prepare(root):
            for path, version in chosen.items():
                stale(root, path, version)

        return prepare

    if stamped:
        for version in (newest + oldest + versions
                        if ctx.tier == 'thorough'
                        else newest + oldest[:1] + versions[:4]):
            scenario('version', None, f'left by version {version!r}',
                     older(dict.fromkeys(stamped, version)))
    if len(stamped) > 1:
        for path in stamped:
            # one of caches is older or newer than another
            chosen = (newest + oldest + versions
                      if ctx.tier == 'thorough'
                      else [rnd.choice(newest), rnd.choice(versions)])
            for version in chosen:
                scenario('version', path, f'one left by version {version!r}',
                         older({path: version}))
                others = {p: rnd.choice(newest + oldest + versions)
                          for p in stamped if p is not path}
                scenario('version', path, f'all but one left by versions '
                                          f'{[*others.values()]}',
                         older(others))

    def upgraded(version):
        def prepare(root):
            """caches are really built by a package with another version"""
            main = root / 'paradigm' / '__init__.py'
            text = main.read_text()
            stat = main.stat()
            main.write_text(re.sub(r"__version__\s*(:[^=]*)?=\s*'[^']*'",
                                   f'__version__ = {version!r}', text))
            remove_all(root)
            ctx.warm(root)
            main.write_text(text)
            os.utime(main, ns=(stat.st_atime_ns,
                               stat.st_mtime_ns + 10 ** 9))

        return prepare

    for version in (['3.0.0', current + '.1', '99.0.0', current[:-2]]
                    if ctx.tier == 'thorough'
                    else [rnd.choice(['3.0.0', '5.0.0', current + '.1'])]):
        scenario('version', None, f'upgraded from {version}',
                 upgraded(version))

    # -- imports killed while writing -------------------------------------
    total = [len(p.read_bytes()) for p in caches]
    for _ in range(KILLED[ctx.tier]):
        limit = rnd.choice([rnd.randrange(1, max(total)), rnd.choice(total)
                            // 2, rnd.randrange(8192, 100000),
                            max(total) - rnd.randrange(1, 5000)])

        def killed(root, limit=limit):
            remove_all(root)
            code, *_ = ctx.run(
                    [ctx.python, '-c', 'import paradigm.base'],
                    env=comparison.instrumented(ctx, root,
                                                VERIF_FSIZE=f'{limit}:kill'),
                    timeout=120)
            if code is not None and code < 0:
                mon.event('killed while writing')

        scenario('killed', None, f'killed at {limit} byte of a file', killed,
                 usable=None)

    for _ in range(KILLED[ctx.tier]):
        event, match, nth = rnd.choice([
            ('open', r'_core.*\.py w|_core.*\.py None \d*[1-9]', 1),
            ('open', r'_core.*\.py w|_core.*\.py None \d*[1-9]', 2),
            ('open', r'_core/__pycache__.*pyc', rnd.randrange(1, 6)),
            ('compile', '', rnd.randrange(1, 40)),
            ('import', '', rnd.randrange(30, 500)),
            ('os.rename', r'paradigm', rnd.randrange(1, 4)),
        ])

        def killed(root, event=event, match=match, nth=nth):
            remove_all(root)
            fault = {'where': 'main', 'event': event, 'match': match,
                     'nth': nth, 'how': 'signal:9'}
            code, *_ = ctx.run(
                    [ctx.python, '-c', 'import paradigm.base'],
                    env=comparison.instrumented(
                            ctx, root, VERIF_FAULT=json.dumps([fault])),
                    timeout=120)
            if code is not None and code < 0:
                mon.event('killed while writing')

        scenario('killed', None, f'killed at {event} {match} {nth}', killed,
                 usable=None)

    def judge(i):
        kind, name, prepare, usable = scenarios[i]
        root = comparison.copy(ctx, template, f'state{i}')
        try:
            prepare(root)
            files = [root / p.relative_to(template) for p in caches]
            result = []
            for step in range(2 + (usable is None
                                   or ctx.tier == 'thorough')):
                if step and result[-1][0] is None:
                    break
                before = comparison.states([p for p in files if p.exists()])
                log = ctx.scratch / f'log{i}-{step}'
                data, code, err = comparison.dump(
                        ctx, root, f'{i}-{step}', '--sample', SAMPLE,
                        VERIF_AUDIT=log)
                after = comparison.states([p for p in files if p.exists()])
                started = []
                if log.exists():
                    started = [event for _, event, _ in
                               map(json.loads, log.read_text().splitlines())
                               if event in STARTED]
                    log.unlink()
                result.append((data, code, err, before, after, started))
            return result
        finally:
            shutil.rmtree(root)

    with ThreadPoolExecutor(ctx.cpus) as pool:
        for (kind, name, _, usable), steps in zip(
                scenarios, pool.map(judge, range(len(scenarios)))):
            mon.event('state')
            for step, (data, code, err, before, after, started) in enumerate(
                    steps):
                label = f'{name}, import {step + 1}'
                mon.case((kind, name, step), sample=label)
                if data is None:
                    errors.append(comparison.failed(
                            mon, f'import:{kind}', label, code, err,
                            hangs=True))
                    continue
                comparison.compare(mon, reference, data,
                                   f'differs:{kind}', label)
                mon.expect(not comparison.warned(data), f'warning:{kind}',
                           lambda: f'{label}: {data["warnings"]}')
                if step == 0 and not usable:
                    if usable is not None:
                        mon.expect(
                                before != after, f'not-rebuilt:{kind}',
                                f'{label}: {[k for k in before]} are as they '
                                f'were')
                    mon.expect(len(after) == len(caches),
                               f'not-rebuilt:{kind}',
                               f'{label}: {sorted(after)}')
                    mon.event('rebuilt')
                elif usable is not None or step == 2:
                    mon.expect(before == after, f'rebuilt-again:{kind}',
                               f'{label}: caches were written again')
                    mon.expect(not started, f'rebuilt-again:{kind}',
                               f'{label}: started processes: {started}')
                    mon.event('reused')
    return [mon.report(next(filter(None, errors), None))]
