"""Processes importing the package from one installation at the same time."""
import json
import random
import shutil
from concurrent.futures import ThreadPoolExecutor

from vlib import comparison
from vlib.monitor import Monitor

RULE = ('case = round: 2-8 processes with generated start offsets, hash '
        'seeds and delays injected at opening of the caches / other files '
        'of the package / imports import the package from one installation '
        'whose caches are absent, stale, broken, complete or removed '
        'meanwhile, in some rounds one of the processes is killed; outcome and signatures of each compared with those of a '
        'lone process; afterwards a lone import reuses what was left (caches '
        'are not written again, no processes are started); overlap of '
        'writers is counted from audit events')
MINIMUM = {'round': 5, 'process': 16, 'compared': 9000, 'reused': 5,
           'rounds with several writers': 2}
ROUNDS = {'quick': 9, 'thorough': 100}
SAMPLE = 500
STARTED = {'os.fork', 'os.posix_spawn', 'subprocess.Popen', 'os.exec',
           'os.system', 'os.forkpty'}


def drive(ctx):
    mon, errors = Monitor(), []
    template = ctx.warm(ctx.fresh_root('template'))
    caches = comparison.caches(ctx, template)
    reference, code, err = comparison.dump(ctx, template, 'reference',
                                           '--sample', SAMPLE)
    if reference is None:
        error = comparison.failed(mon, 'reference', 'reference', code, err)
        return [mon.report(error)]

    def remove(root, paths=caches):
        for path in paths:
            target = root / path.relative_to(template)
            target.unlink(missing_ok=True)
            for p in comparison.bytecode_of(target):
                p.unlink()

    def cut(root, rnd):
        for path in caches:
            target = root / path.relative_to(template)
            data = target.read_bytes()
            target.write_bytes(data[:rnd.randrange(len(data))])

    def stale(root, rnd):
        for path in caches:
            target = root / path.relative_to(template)
            data = target.read_bytes()
            target.write_bytes(data.replace(b"version = '", b"version = '0"))

    def state(kind, root, rnd):
        if kind == 'absent':
            remove(root)
        elif kind == 'broken':
            cut(root, rnd)
        elif kind == 'stale':
            stale(root, rnd)
        elif kind == 'one absent':
            remove(root, [rnd.choice(caches)])
        elif kind == 'no bytecode':
            for path in caches:
                for p in comparison.bytecode_of(
                        root / path.relative_to(template)):
                    p.unlink()

    kinds = ['absent', 'stale', 'absent', 'broken', 'one absent',
             'absent', 'no bytecode', 'absent']

    def run(i):
        rnd = random.Random(f'{ctx.seed} {i}')
        kind = kinds[i % len(kinds)]
        root = comparison.copy(ctx, template, f'round{i}')
        log = ctx.scratch / f'log{i}'
        files = [root / p.relative_to(template) for p in caches]
        try:
            state(kind, root, rnd)
            count = rnd.choice([2, 3, 4, 4, 6, 8])
            pattern = rnd.choice(['together', 'spread', 'readers'])
            slow = rnd.choice([0, .3, .6])
            plans = []
            for j in range(count):
                delay = {'together': 0, 'spread': rnd.uniform(0, 5),
                         'readers': 0 if not j else
                         rnd.choice([rnd.uniform(1.5, 3.2),
                                     rnd.uniform(3, 5.5)])}[pattern]
                faults = [{'where': 'main', 'event': 'import', 'nth': 1,
                           'match': '^paradigm', 'how': f'sleep:{delay}'}]
                for _ in range(rnd.randrange(0, 4)):
                    event, match = rnd.choice([
                        ('open', r'_mypy_\S*\.py'),
                        ('open', r'_mypy_\S*\.pyc'),
                        ('compile', r'_mypy_\S*'), ('os.rename', ''),
                        ('open', 'paradigm/_core')])
                    faults.append({
                        'where': 'main', 'event': event, 'match': match,
                        'nth': rnd.randrange(1, 4),
                        'how': f'sleep:{rnd.uniform(0, .6):.3f}'})
                if rnd.random() < slow:
                    # what is being written is seen by the others
                    faults.append({
                        'where': 'main', 'event': 'open',
                        'match': r'_mypy_\S*\.py (w|x|a|r\+)',
                        'nth': rnd.choice([0, 1, 1, 2, 3]),
                        'how': f'slow:{rnd.uniform(0, 2.5):.3f}:'
                               f'{rnd.uniform(0, 1.5):.3f}'})
                plans.append(faults)
            victim = rnd.randrange(count) if i % 3 == 2 else None
            if victim is not None:
                event, match = rnd.choice([
                    ('open', r'_core/_mypy_\S* (w|x|a|r\+)'),
                    ('open', r'_core/_mypy_\S* (w|x|a|r\+)'),
                    ('open', r'_core/__pycache__/_mypy_\S* .* \d*[1-9]$'),
                    ('compile', r'_mypy_\S*'), ('import', '_mypy_')])
                plans[victim].append({
                    'where': 'main', 'event': event, 'match': match,
                    'nth': rnd.randrange(1, 3),
                    'how': ('partial' if match.endswith('r\\+)')
                            and rnd.random() < .5 else 'signal:9')})

            def one(j):
                return comparison.dump(
                        ctx, root, f'{i}-{j}', '--sample', SAMPLE,
                        VERIF_FAULT=json.dumps(plans[j]), VERIF_AUDIT=log,
                        PYTHONHASHSEED=rnd.randrange(2 ** 32))

            with ThreadPoolExecutor(count) as crew:
                dumped = list(crew.map(one, range(count)))
            writers = {}
            for line in log.read_text().splitlines():
                pid, event, args = json.loads(line)
                if event == 'open' and any(f.stem in args[0]
                                           for f in files):
                    writers.setdefault(pid, []).append(args[0])
            log.unlink()
            if victim is not None:
                killed = dumped.pop(victim)
                if killed[0] is not None:
                    dumped.append(killed)
                elif killed[1] is not None and killed[1] < 0:
                    mon.event('killed')
                else:
                    dumped.append(killed)
                dumped.append(comparison.dump(ctx, root, f'{i}-next',
                                              '--sample', SAMPLE))
            before = comparison.states([p for p in files if p.exists()])
            lone = comparison.dump(ctx, root, f'{i}-lone', '--sample',
                                   SAMPLE, VERIF_AUDIT=log)
            after = comparison.states([p for p in files if p.exists()])
            started = [line for line in log.read_text().splitlines()
                       if json.loads(line)[1] in STARTED]
            log.unlink()
            extra = [p.name for p in comparison.caches(ctx, root)
                     if p not in files]
            return (f'{kind}, {count} processes, {pattern}'
                    + ', one killed' * (victim is not None), dumped, writers,
                    lone, before, after, started, extra)
        finally:
            shutil.rmtree(root)

    with ThreadPoolExecutor(4) as pool:
        for (label, dumped, writers, lone, before, after, started,
             extra) in pool.map(run, range(ROUNDS[ctx.tier])):
            mon.event('round')
            mon.event('writers', len(writers))
            mon.event('rounds with several writers', len(writers) > 1)
            mon.case(label, sample=f'{label}: {len(writers)} writers')
            for data, code, err in dumped:
                mon.event('process')
                if data is None:
                    errors.append(comparison.failed(mon, 'import', label,
                                                    code, err, hangs=True))
                    continue
                comparison.compare(mon, reference, data, 'differs', label)
                mon.expect(not comparison.warned(data), 'warning',
                           lambda: f'{label}: {data["warnings"]}')
            data, code, err = lone
            if data is None:
                errors.append(comparison.failed(mon, 'later import', label,
                                                code, err, hangs=True))
                continue
            comparison.compare(mon, reference, data, 'later', label)
            mon.event('reused')
            mon.expect(before == after and not started, 'later:rebuilt',
                       lambda: f'{label}: caches left were unusable, '
                               f'{sorted(before)} {sorted(after)} '
                               f'{started[:3]}')
            mon.expect(len(after) == len(caches) and not extra,
                       'later:files', lambda: f'{label}: {sorted(after)}, '
                                              f'{extra}')
    return [mon.report(next(filter(None, errors), None))]
