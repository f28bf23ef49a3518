"""Side effects of importing and using the package."""
import json
import os
import random
import re
import shutil
from concurrent.futures import ThreadPoolExecutor

from vlib import comparison
from vlib.monitor import Monitor

RULE = ('case = (caches absent / complete / stale, start method, modules '
        'loaded before, interpreter flags, usual or unusual state of the '
        'interpreter before) x (import, requests for '
        'generated samples of the standard library and user callables, '
        'operations with signatures); monitors: audit events of the process '
        'and all its children (files opened for writing, removed, renamed, '
        'sockets, processes, imports of modules with visible effects), '
        'output, files of the working directory / home / temporary '
        'directory / installation, state of the interpreter (37 facts), '
        'contents of all loaded modules and their classes')
MINIMUM = {'process': 12, 'cold': 3, 'warm': 8, 'audit event': 60,
           'phase': 60, 'request': 20000}
RUNS = {'quick': 6, 'thorough': 60}
VISIBLE = re.compile(r'(antigravity|this|idlelib|tkinter|turtle|turtledemo)'
                     r'(\..*)?').fullmatch
STARTED = {'os.fork', 'os.posix_spawn', 'subprocess.Popen', 'os.exec',
           'os.system', 'os.forkpty', 'os.spawn', 'pty.spawn'}
NETWORK = {'socket.connect', 'socket.getaddrinfo', 'socket.sendto',
           'urllib.Request', 'ftplib.connect', 'smtplib.connect',
           'http.client.connect', 'webbrowser.open'}
STATE = {'os.chdir', 'os.putenv', 'os.unsetenv', 'builtins.input',
         'sys.settrace', 'sys.setprofile', 'resource.setrlimit',
         'os.kill', 'os.killpg', 'signal.pthread_kill', 'syslog.syslog',
         'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'os.chown',
         'os.symlink', 'os.link', 'os.mkfifo', 'os.mknod'}


def drive(ctx):
    mon, errors = Monitor(), []
    template = ctx.warm(ctx.fresh_root('template'))
    caches = comparison.caches(ctx, template)
    rnd = random.Random(ctx.seed)
    scenarios = []
    for method in (None, 'fork', 'spawn', 'forkserver'):
        scenarios.append(('cold', method, False, 0, ()))
    scenarios.append(('cold', None, True, 1000, ()))
    scenarios.append(('stale', None, False, 0, ()))
    for i in range(RUNS[ctx.tier]):
        scenarios.append(('warm', None, True,
                          rnd.choice([4000, 6000]), ()))
        scenarios.append(('warm', rnd.choice(['fork', 'spawn', None]), False,
                          2000, rnd.choice([('-X', 'dev'), ('-b',), ('-O',),
                                            ('-W', 'error'), ()])))

    def files(*directories):
        result = {}
        for directory in directories:
            for where, names, contents in os.walk(directory):
                for name in names + contents:
                    path = os.path.join(where, name)
                    if os.path.isfile(path):
                        stat = os.stat(path)
                        result[path] = (stat.st_mtime_ns, stat.st_size,
                                        stat.st_mode)
                    else:
                        result[path] = None
        return result

    def run(i):
        kind, method, everything, requests, flags = scenarios[i]
        root = comparison.copy(ctx, template, f'run{i}')
        if kind != 'warm':
            for path in caches:
                target = root / path.relative_to(template)
                if kind == 'stale':
                    target.write_bytes(target.read_bytes().replace(
                            b"version = '", b"version = '0"))
                else:
                    target.unlink()
                    for p in comparison.bytecode_of(target):
                        p.unlink()
        places = {}
        for name in ('cwd', 'home', 'tmp'):
            places[name] = ctx.scratch / f'{name}{i}'
            places[name].mkdir()
        log, out = ctx.scratch / f'log{i}', ctx.scratch / f'out{i}.json'
        env = comparison.instrumented(
                ctx, root, VERIF_AUDIT=log, HOME=places['home'],
                TMPDIR=places['tmp'], XDG_CACHE_HOME=places['home'],
                DISPLAY=':77', BROWSER='false',
                LC_ALL='C.UTF-8', TZ='Asia/Tokyo')
        if '-O' in flags:
            # or else it is written for the standard library
            env['PYTHONDONTWRITEBYTECODE'] = '1'
        options = ['--seed', ctx.seed * 1000 + i]
        if i % 2:
            options.append('--unusual')
        if everything:
            options.append('--everything')
        if requests:
            options += ['--requests', requests]
        if method:
            options += ['--method', method]
        try:
            before = files(root, *places.values())
            code, so, se, _ = ctx.run(
                    [ctx.python, *flags, '-m', 'vlib.state', out, *options],
                    env=env, timeout=400, cwd=places['cwd'])
            after = files(root, *places.values())
            events = [json.loads(line)
                      for line in log.read_text().splitlines()]
            report = json.loads(out.read_text()) if out.exists() else None
            return (code, so, se, report, events, before, after, str(root),
                    str(places['tmp']))
        finally:
            shutil.rmtree(root)
            for place in places.values():
                shutil.rmtree(place)

    names = {p.stem for p in caches}
    with ThreadPoolExecutor(ctx.cpus) as pool:
        for scenario, (code, out, err, report, events, before, after, root,
                       tmp) in zip(scenarios,
                                   pool.map(run, range(len(scenarios)))):
            kind, method, everything, requests, flags = scenario
            label = (f'{kind}, {method}, everything loaded {everything}, '
                     f'{requests} requests, {flags}')
            mon.event('process')
            mon.event('warm' if kind == 'warm' else 'cold')
            mon.case(label, sample=label)
            if report is None:
                errors.append(comparison.failed(mon, 'failed', label, code,
                                                err))
                continue
            mon.event('phase', report['phases'])
            mon.event('request', report['requests'])
            for _ in range(report['requests'] // 500):
                mon.case((label, _))
            for key, detail in report['problems']:
                mon.violation(key, f'{label}: {detail}')
            mon.expect(not out, 'output', lambda: f'{label}: {out[:1000]}')
            mon.expect(not err, 'output', lambda: f'{label}: {err[:1000]}')
            package = os.path.join(root, 'paradigm') + os.sep
            phase, main = None, events[0][0] if events else None
            for pid, event, args in events:
                if event == 'verif.phase':
                    phase, main = args[0], pid
                    continue
                if phase not in ('import', 'requests'):
                    continue
                mon.event('audit event')
                where = (f'{label}, {phase}, '
                         f'{"" if pid == main else "helper, "}{event} {args}')
                if event == 'import':
                    mon.expect(not VISIBLE(args[0]), f'imports:{args[0]}',
                               where)
                elif event == 'open':
                    path = args[0]
                    temporary = (kind != 'warm'
                                 and (path.startswith(tmp)
                                      or path == '/dev/shm'
                                      or path.startswith('/dev/shm/')))
                    mon.expect(path.startswith(package) or path == os.devnull
                               or temporary, 'writes', where)
                    if kind == 'warm':
                        mon.expect('__pycache__' in path
                                   or path == os.devnull, 'writes:warm',
                                   where)
                elif event in NETWORK:
                    mon.expect(kind != 'warm' and (
                            method == 'forkserver'
                            and event == 'socket.connect'), 'network', where)
                elif event in STARTED:
                    mon.expect(kind != 'warm' and phase == 'import',
                               'starts process', where)
                elif event in ('os.remove', 'os.rename', 'os.rmdir',
                               'os.mkdir', 'os.chmod', 'os.truncate',
                               'os.utime'):
                    mon.expect(any(a.startswith((package, tmp))
                                   for a in args), 'file system', where)
                elif event in STATE and not (
                        event in ('os.kill', 'shutil.rmtree')
                        and kind != 'warm' or event == 'os.chdir'
                        and pid != main):
                    mon.violation(f'does:{event}', where)
            for path in before.keys() | after.keys():
                if before.get(path) == after.get(path) and (
                        path in before) == (path in after):
                    continue
                name = os.path.basename(path)
                stem = name.split('.')[0]
                mon.expect(path.startswith(package)
                           and (kind != 'warm' or '__pycache__' in path),
                           f'files:{kind}', lambda: f'{label}: {path} changed')
                if stem not in names and '__pycache__' not in path:
                    mon.violation(f'files:{kind}',
                                  f'{label}: {path} is not a cache')
    return [mon.report(next(filter(None, errors), None))]
