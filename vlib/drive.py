"""Driver of one check: copies /repo's package into a scratch directory,
runs the workload + monitors there and turns their reports into a verdict.

Outcomes: exit 0 (held on everything explored), exit 1 + VIOLATION line,
anything else is an error of the check (inconclusive)."""
import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, str(VERIF))


class Inconclusive(Exception):
    pass


class Context:
    """What a check's driver part works with."""

    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scratch = Path(scratch)
        self.python = sys.executable
        self.cpus = os.cpu_count() or 1
        self.procs = []
        self.hangs = 0

    # -- copies of the package ------------------------------------------
    def sources(self):
        try:
            out = subprocess.run(
                    ['git', '-c', 'safe.directory=*', '-C', str(REPO),
                     'ls-files', '-z', '-co', '--exclude-standard',
                     '--', 'paradigm'],
                    check=True, stdout=subprocess.PIPE,
                    stderr=subprocess.DEVNULL).stdout
            files = [f for f in out.decode().split('\0') if f]
            files = [f for f in files if (REPO / f).is_file()]
            if files:
                return files
        except Exception:
            pass
        return [str(p.relative_to(REPO))
                for p in (REPO / 'paradigm').rglob('*')
                if p.is_file() and '__pycache__' not in p.parts
                and not p.name.startswith('_mypy_')]

    def fresh_root(self, name):
        """new directory with the package's sources only (no caches)"""
        root = self.scratch / name
        root.mkdir(parents=True)
        for f in self.sources():
            target = root / f
            target.parent.mkdir(parents=True, exist_ok=True)
            shutil.copyfile(REPO / f, target)
        assert (root / 'paradigm' / '__init__.py').is_file()
        return root

    def env(self, root, **extra):
        env = {k: v for k, v in os.environ.items()
               if not k.startswith('PYTHON')}
        home = self.scratch / 'home'
        home.mkdir(exist_ok=True)
        env.update(PYTHONPATH=os.pathsep.join([str(root), str(VERIF)]),
                   PYTHONNOUSERSITE='1', HOME=str(home),
                   PYTHONHASHSEED='0', VERIF_ROOT=str(root),
                   VERIF_SCRATCH=str(self.scratch),
                   VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        env.update({k: str(v) for k, v in extra.items() if v is not None})
        for k, v in extra.items():
            if v is None:
                env.pop(k, None)
        return env

    def run(self, argv, *, env, timeout, cwd=None, stdin=subprocess.DEVNULL,
            user=None, leftovers=None):
        """runs in an own process group with everything killed at the end;
        returns (returncode or None on timeout, stdout, stderr, seconds);
        processes of the session still running afterwards are added
        to leftovers"""
        start = time.monotonic()
        with tempfile.TemporaryFile(dir=self.scratch) as out, \
                tempfile.TemporaryFile(dir=self.scratch) as err:
            proc = subprocess.Popen([str(a) for a in argv], env=env, cwd=cwd
                                    or self.scratch, stdin=stdin,
                                    stdout=out, stderr=err, user=user,
                                    group=user, extra_groups=[] if user
                                    else None, start_new_session=True)
            self.procs.append(proc)
            try:
                code = proc.wait(timeout)
            except subprocess.TimeoutExpired:
                code = None
            if leftovers is not None:
                leftovers.extend(session_of(proc.pid))
            self.kill_group(proc)
            out.seek(0), err.seek(0)
            return (code, out.read().decode('utf-8', 'replace'),
                    err.read().decode('utf-8', 'replace'),
                    time.monotonic() - start)

    @staticmethod
    def kill_group(proc):
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            proc.wait(10)
        except subprocess.TimeoutExpired:
            pass

    def warm(self, root, *, timeout=300):
        """builds the caches; a failure here is reported as it is"""
        code, out, err, _ = self.run(
                [self.python, '-c',
                 'import warnings; warnings.simplefilter("ignore");'
                 'import paradigm, paradigm.base, os;'
                 'assert paradigm.__file__.startswith('
                 'os.environ["VERIF_ROOT"]), paradigm.__file__'],
                env=self.env(root, PYTHONDONTWRITEBYTECODE=None),
                timeout=timeout)
        if code != 0:
            raise Inconclusive(f'package cannot be imported: exit {code}\n'
                               f'{err[-3000:]}')
        return root

    # -- sharded in-process workloads -----------------------------------
    def shards(self, n, *, root, timeout=840, **extra):
        def one(i):
            out = self.scratch / f'shard{i}.json'
            code, so, se, _ = self.run(
                    [self.python, '-m', 'vlib.worker', self.pid.lower(),
                     out, self.tier, self.seed, i, n],
                    env=self.env(root, PYTHONDONTWRITEBYTECODE='1', **extra),
                    timeout=timeout)
            if out.exists():
                report = json.loads(out.read_text())
            else:
                raise Inconclusive(
                        f'worker {i} ended with {code} and no report\n'
                        f'{so[-1500:]}\n{se[-3000:]}')
            if report.get('error'):
                report['error'] = f'worker {i}: {report["error"]}'
            return report

        with ThreadPoolExecutor(max(1, min(n, self.cpus))) as pool:
            return list(pool.map(one, range(n)))


def session_of(sid, *, patience=5):
    """processes of the session, given some time to end"""
    deadline = time.monotonic() + patience
    while True:
        result = []
        for entry in os.listdir('/proc'):
            if not entry.isdigit() or int(entry) == sid:
                continue
            try:
                stat = Path(f'/proc/{entry}/stat').read_text()
            except OSError:
                continue
            state, _, _, session = stat.rpartition(')')[2].split()[:4]
            if int(session) == sid and state != 'Z':
                result.append(f'{entry} '
                              + stat.partition('(')[2].rpartition(')')[0])
        if not result or time.monotonic() > deadline:
            return result
        time.sleep(.05)


def merge(reports):
    result = {'evaluations': 0, 'distinct': set(), 'samples': [],
              'violations': [], 'events': {}, 'notes': [], 'errors': []}
    for r in reports:
        result['evaluations'] += r['evaluations']
        result['distinct'].update(r['distinct'])
        result['violations'].extend(r['violations'])
        for k, v in r['events'].items():
            result['events'][k] = result['events'].get(k, 0) + v
        result['notes'].extend(r.get('notes', []))
        if r.get('error'):
            result['errors'].append(r['error'])
    for r in reports:
        result['samples'].extend(r['samples'][:max(1, 12 // len(reports))])
    return result


def known_findings(pid):
    result = {}
    path = VERIF / 'known_findings.txt'
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith(('#', 'fixed:')):
                continue
            m = re.match(r'property=(\w+) key=(\S+)\s*(.*)', line)
            if m and m[1] == pid:
                result[m[2]] = m[3]
    return result


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER') or 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    replay = None
    if '--replay' in sys.argv:
        replay = json.loads(Path(sys.argv[sys.argv.index('--replay') + 1])
                            .read_text())
        tier, seed = replay['tier'], replay['seed']
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    start = time.monotonic()
    module = importlib.import_module('checks.' + pid.lower())
    scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    ctx = Context(pid, tier, seed, scratch)

    def stop(signum, frame):
        raise Inconclusive(f'signal {signum}')

    signal.signal(signal.SIGTERM, stop)
    try:
        if hasattr(module, 'drive'):
            reports = module.drive(ctx)
        else:
            root = ctx.warm(ctx.fresh_root('root'))
            n = getattr(module, 'SHARDS', {}).get(tier, 8)
            reports = ctx.shards(n, root=root)
        result = merge(reports)
        known = known_findings(pid)
        shortcomings = list(result['errors'])
        for name, count in getattr(module, 'MINIMUM', {}).items():
            if result['events'].get(name, 0) < count:
                shortcomings.append(
                        f'monitor saw {result["events"].get(name, 0)} '
                        f'{name!r} events, at least {count} expected: '
                        f'{result["events"]}')
        if not result['evaluations']:
            shortcomings.append('nothing was evaluated')
        if shortcomings and all(v['key'] in known
                                for v in result['violations']):
            raise Inconclusive(shortcomings[0])
    except Inconclusive as e:
        print(f'INCONCLUSIVE property={pid}: {e}')
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        print(f'INCONCLUSIVE property={pid}: harness error')
        sys.exit(3)
    finally:
        for proc in ctx.procs:
            ctx.kill_group(proc)
        if scratch.startswith(tempfile.gettempdir() + os.sep):
            make_writable(scratch)
            shutil.rmtree(scratch, ignore_errors=True)
    by_key = {}
    for v in result['violations']:
        by_key.setdefault(v['key'], []).append(v)
    fresh = {k: vs for k, vs in by_key.items() if k not in known}
    evidence_dir = VERIF / 'evidence'
    evidence_dir.mkdir(exist_ok=True)
    coverage = {
        'evaluations': result['evaluations'],
        'distinct_nontrivial': len(result['distinct']),
        'rule': module.RULE,
        'samples': result['samples'][:12],
        'monitor_events': dict(sorted(result['events'].items())),
        'known_findings_seen': sorted(k for k in by_key if k in known),
    }
    if result['notes']:
        coverage['notes'] = sorted(set(result['notes']))[:40]
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': coverage,
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - start, 2),
        'violations': len(fresh),
    }
    (evidence_dir / f'{pid}.json').write_text(
            json.dumps(evidence, indent=1, ensure_ascii=False) + '\n')
    for k in sorted(k for k in by_key if k in known):
        print(f'KNOWN-FINDING: property={pid} {k} {known[k]}')
    print(f'{pid} {tier} seed={seed}: {result["evaluations"]} evaluations, '
          f'{len(result["distinct"])} distinct non-trivial, '
          f'{len(fresh)} violations, {evidence["wall_s"]} s; '
          f'events {coverage["monitor_events"]}')
    for shortcoming in shortcomings[:3]:
        print('  note:', shortcoming[-1500:])
    if fresh:
        replays = evidence_dir / 'replay'
        replays.mkdir(exist_ok=True)
        if replay is not None:
            print('replayed key seen again:',
                  any(k == replay['key'] for k in fresh))
        for k, vs in sorted(fresh.items())[:10]:
            digest = hashlib.sha256(k.encode()).hexdigest()[:12]
            path = replays / f'{pid}-{digest}.json'
            path.write_text(json.dumps(
                    {'property': pid, 'tier': tier, 'seed': seed, 'key': k,
                     'count': len(vs), 'detail': vs[0]['detail'],
                     'replay': f'./check {pid} --replay {path}'},
                    indent=1, ensure_ascii=False) + '\n')
            print(f'  {k}: {str(vs[0]["detail"])[:600]}')
            print(f'VIOLATION property={pid} replay={path}')
        sys.exit(1)
    sys.exit(0)


def make_writable(root):
    for d, _, _ in os.walk(root):
        try:
            os.chmod(d, 0o700)
        except OSError:
            pass


if __name__ == '__main__':
    sys.modules['vlib.drive'] = sys.modules['__main__']
    main()
