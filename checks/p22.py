"""First imports by all kinds of main programs, with dying helpers."""
import json
import os
import random
import shutil
import signal
from concurrent.futures import ThreadPoolExecutor

from vlib import comparison
from vlib.monitor import Monitor

RULE = ('case = (start method, form of the main program, way of importing, '
        'fault in helper process: none / killed or exiting at generated '
        'audit event or moment / failing with generated exceptions) for an '
        'installation without caches; monitors in the program: number of '
        'times its code is executed, identity and namespace of '
        'sys.modules["__main__"], children, threads, end within time limit, '
        'error reported; afterwards no processes of the session are left '
        'and a later import by another process gives usual signatures')
MINIMUM = {'program': 36, 'helper died': 6, 'failed import': 6,
           'succeeded import': 18, 'compared': 15000, 'recovered': 30}
FAULTY = {'quick': 20, 'thorough': 200}
SAMPLE = 400
LIMIT = 100
METHODS = ['fork', 'spawn', 'forkserver']

PROGRAM = '''
import json, os, sys
with open(os.environ['PROBE_RUNS'], 'a') as f:
    f.write(f'{__name__}\\n')
import multiprocessing, threading, time
MARKER = object()
CONFIG = json.loads(os.environ['PROBE_CONFIG'])


def snapshot():
    main = sys.modules.get('__main__')
    return (id(main), None if main is None else
            {k: id(v) for k, v in vars(main).items()
             if k not in ('report', 'worker', 'before', 'after')})


def attempt():
    try:
        import paradigm.base as base
    except BaseException as error:
        return 'failed', f'{type(error).__name__}: {error}'[:300]
    else:
        result = [str(base.signature_from_callable(value))
                  for value in (len, dict, sorted, int, print)]
        return 'succeeded', result


def kill():
    for process in multiprocessing.active_children():
        process.kill()
        with open(os.environ['PROBE_RUNS'] + '.killed', 'a') as f:
            f.write('killed\\n')


def probe():
    report = {}
    if CONFIG['method'] and multiprocessing.get_start_method(
            allow_none=True) is None:
        multiprocessing.set_start_method(CONFIG['method'])
    if CONFIG['detached']:
        saved = sys.modules.pop('__main__')
    threads = threading.active_count()
    cwd, path, environment = os.getcwd(), list(sys.path), dict(os.environ)
    descriptors = len(os.listdir('/proc/self/fd'))
    before = snapshot()
    if CONFIG['killed'] is not None:
        timer = threading.Timer(CONFIG['killed'], kill)
        timer.start()
    if CONFIG['threaded']:
        results = []
        thread = threading.Thread(target=lambda: results.append(attempt()))
        thread.start()
        thread.join()
        report['outcome'] = results[0]
    else:
        report['outcome'] = attempt()
    report['children'] = [p.name for p in multiprocessing.active_children()]
    if CONFIG['killed'] is not None:
        timer.join()
    after = snapshot()
    report['main'] = before == after
    report['threads'] = threading.active_count() - threads
    report['state'] = (cwd == os.getcwd(), path == sys.path,
                       environment == dict(os.environ))
    import gc
    gc.collect()
    report['descriptors'] = len(os.listdir('/proc/self/fd')) - descriptors
    if CONFIG['killed'] is not None and report['outcome'][0] == 'failed':
        report['again'] = attempt()
    if CONFIG['detached']:
        sys.modules['__main__'] = saved
    with open(os.environ['PROBE_REPORT'], 'w') as f:
        json.dump(report, f)


if CONFIG['worker'] is None:
    probe()
elif __name__ in ('__main__', 'probe_module', 'probe_path'):
    context = multiprocessing.get_context(CONFIG['worker'])
    if CONFIG['pool']:
        with context.Pool(1) as pool:
            pool.apply(probe)
    else:
        process = context.Process(target=probe)
        process.start()
        process.join()
    with open(os.environ['PROBE_RUNS'], 'a') as f:
        f.write('end of parent\\n')
'''
FORMS = ['script', 'command', 'stdin', 'module', 'package', 'directory',
         'zip', 'runpy', 'link', 'unusual name']


def drive(ctx):
    mon, errors = Monitor(), []
    template = ctx.warm(ctx.fresh_root('template'))
    caches = comparison.caches(ctx, template)
    reference, code, err = comparison.dump(ctx, template, 'reference',
                                           '--sample', SAMPLE)
    if reference is None:
        error = comparison.failed(mon, 'reference', 'reference', code, err)
        return [mon.report(error)]
    expected = []
    for path in caches:
        path.unlink()
        for p in comparison.bytecode_of(path):
            p.unlink()
    rnd = random.Random(ctx.seed)
    plain = {'method': None, 'detached': False, 'killed': None,
             'threaded': False, 'worker': None, 'pool': False}
    scenarios = []

    def add(form, fault=None, **changes):
        scenarios.append((form, fault, {**plain, **changes}))

    for i, form in enumerate(FORMS):
        add(form, method=METHODS[(i + ctx.seed) % 3])
    for method in METHODS:
        add('script', method=method, threaded=True)
        add('script', method=method, detached=True)
    add('script')
    for method in METHODS:
        for pool in (False, True):
            add(rnd.choice(['script', 'script', 'module']), worker=method,
                pool=pool)
    if ctx.tier == 'thorough':
        for form in FORMS:
            for method in METHODS:
                add(form, method=method, threaded=rnd.random() < .3)
    ways = ['exit:0', 'exit:1', f'signal:{signal.SIGKILL:d}',
            f'signal:{signal.SIGSEGV:d}', f'signal:{signal.SIGTERM:d}',
            'raise', 'memory', 'odd', 'interrupt', 'oserror:5', 'exit:77']
    deaths = [w for w in ways if w.startswith(('exit', 'signal'))]
    modules = ['wave', 'mailbox', 'zipapp', 'imaplib', 'plistlib', 'cProfile',
               'secrets', 'xmlrpc.server', 'wsgiref.util', 'chunk', 'cgi',
               'tabnanny', 'graphlib', 'quopri', 'sndhdr', 'colorsys']
    for i in range(FAULTY[ctx.tier]):
        method = METHODS[i % 3]
        form = rnd.choice(FORMS)
        kind = ['stub', 'index', 'moment', 'start'][i % 4]
        if kind == 'moment':
            add(form, method=method,
                killed=round(rnd.choice([rnd.uniform(0, 5),
                                         rnd.uniform(0, .5)]), 3))
            continue
        if kind == 'stub':
            event = {'event': 'open', 'match': r'\.pyi ',
                     'nth': rnd.choice([1, rnd.randrange(1, 50),
                                        rnd.randrange(1, 650)]),
                     'how': ways[i // 4 % len(ways)]}
        elif kind == 'index':
            event = {'event': 'import',
                     'match': f'^{rnd.choice(modules)}(?: |$)',
                     'nth': 1, 'how': rnd.choice(deaths)}
        else:
            event = {'event': rnd.choice(['import', 'open']), 'match': '',
                     'nth': rnd.randrange(1, 30), 'how': rnd.choice(deaths)}
        add(form, {'where': 'helper', **event}, method=method)

    def command(form, place):
        """arguments, standard input and variables running the program"""
        script = place / 'probe_module.py'
        script.write_text(PROGRAM)
        if form == 'command':
            return ['-c', PROGRAM], None
        if form == 'stdin':
            return ['-'], script
        if form == 'module':
            return ['-m', 'probe_module'], None
        if form == 'package':
            (place / 'probe_package').mkdir()
            (place / 'probe_package' / '__init__.py').write_text('')
            (place / 'probe_package' / '__main__.py').write_text(PROGRAM)
            return ['-m', 'probe_package'], None
        if form == 'directory':
            (place / 'application').mkdir()
            (place / 'application' / '__main__.py').write_text(PROGRAM)
            return [place / 'application'], None
        if form == 'zip':
            (place / 'application').mkdir()
            (place / 'application' / '__main__.py').write_text(PROGRAM)
            archive = shutil.make_archive(str(place / 'archive'), 'zip',
                                          place / 'application')
            return [archive], None
        if form == 'runpy':
            runner = place / 'runner.py'
            runner.write_text(f'import runpy\nrunpy.run_path('
                              f'{str(script)!r}, run_name="probe_path")\n')
            return [runner], None
        if form == 'link':
            (place / 'link').symlink_to(script)
            return [place / 'link'], None
        if form == 'unusual name':
            odd = place / 'some program-1.0 é'
            odd.write_text(PROGRAM)
            return [odd], None
        return [script], None

    def judge(i):
        form, fault, config = scenarios[i]
        root = comparison.copy(ctx, template, f'program{i}')
        place = ctx.scratch / f'place{i}'
        place.mkdir()
        try:
            argv, stdin = command(form, place)
            report, runs = place / 'report.json', place / 'runs'
            extra = {'PROBE_CONFIG': json.dumps(config),
                     'PROBE_REPORT': report, 'PROBE_RUNS': runs}
            if fault is not None:
                extra['VERIF_FAULT'] = json.dumps([fault])
            env = comparison.instrumented(ctx, root, **extra)
            env['PYTHONPATH'] += os.pathsep + str(place)
            leftovers = []
            with open(stdin or os.devnull) as source:
                code, out, err, took = ctx.run(
                        [ctx.python, '-W', 'ignore', *argv], env=env,
                        timeout=LIMIT, cwd=place, stdin=source,
                        leftovers=leftovers)
            data = json.loads(report.read_text()) if report.exists() else None
            lines = runs.read_text().splitlines() if runs.exists() else []
            killed = (place / 'runs.killed').exists()
            later = comparison.dump(ctx, root, f'{i}-later', '--sample',
                                    SAMPLE)
            return code, out, err, took, data, lines, killed, leftovers, later
        finally:
            shutil.rmtree(root)
            shutil.rmtree(place)

    with ThreadPoolExecutor(ctx.cpus) as pool:
        for (form, fault, config), (code, out, err, took, data, lines,
                                    killed, leftovers, later) in zip(
                scenarios, pool.map(judge, range(len(scenarios)))):
            mon.event('program')
            label = (f'{form}, {config["method"]}, '
                     f'{[k for k, v in config.items() if v and k != "method"]}'
                     f', worker {config["worker"]}, {fault}, '
                     f'killed at {config["killed"]}')
            mon.case(label, sample=label)
            kind = ('faulty' if fault is not None
                    or config['killed'] is not None else 'usual')
            if code is None:
                mon.violation(f'hang:{kind}', f'{label}: {took:.0f} s\n'
                                              f'{err[-1500:]}')
                continue
            if data is None:
                errors.append(comparison.failed(mon, f'program:{kind}',
                                                label, code, err))
                continue
            mon.expect(not leftovers, f'leftovers:{kind}',
                       lambda: f'{label}: {leftovers}')
            mon.expect(not data['children'], f'children:{kind}',
                       lambda: f'{label}: {data["children"]}')
            mon.expect(data['main'], f'main:{kind}',
                       lambda: f'{label}: main module differs')
            mon.expect(data['threads'] <= 0, f'threads:{kind}',
                       lambda: f'{label}: {data["threads"]} more threads')
            mon.expect(all(data['state']), f'state:{kind}',
                       lambda: f'{label}: cwd, path, environment: '
                               f'{data["state"]}')
            if config['worker'] is None:
                mon.expect(len(lines) == 1, f'executed:{kind}',
                           lambda: f'{label}: program is executed {lines}')
                if config['method'] == 'fork':
                    mon.expect(data['descriptors'] <= 0,
                               f'descriptors:{kind}',
                               lambda: f'{label}: {data["descriptors"]} more')
            else:
                own = ['__main__', 'end of parent']
                if config['worker'] != 'fork':
                    own.insert(1, '__mp_main__')
                mon.expect(len(lines) == len(own), f'executed:{kind}',
                           lambda: f'{label}: program is executed {lines}')
            outcome, detail = data['outcome']
            mon.event(f'{outcome} import')
            if outcome == 'succeeded':
                if not expected:
                    expected.extend(detail)
                mon.expect(detail == expected, f'signatures:{kind}',
                           lambda: f'{label}: {detail}\n{expected}')
                if kind == 'usual':
                    mon.expect(code == 0 and not out and not err,
                               'output', lambda: f'{label}: {code} {out} '
                                                 f'{err}')
            else:
                mon.expect(kind == 'faulty', 'failure',
                           lambda: f'{label}: {detail}\n{err[-1500:]}')
                mon.event('helper died', bool(fault or killed))
            if 'again' in data:
                mon.expect(data['again'][0] == 'succeeded'
                           and (not expected
                                or data['again'][1] == expected),
                           'again', lambda: f'{label}: {data["again"]}')
            dumped, code, err = later
            if dumped is None:
                errors.append(comparison.failed(
                        mon, f'later:{kind}', label, code, err, hangs=True))
                continue
            mon.event('recovered')
            comparison.compare(mon, reference, dumped, f'later:{kind}',
                               label)
    return [mon.report(next(filter(None, errors), None))]
