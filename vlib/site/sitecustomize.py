"""Instruments the interpreter (and its children) before anything else runs.

VERIF_AUDIT  file to which audit events are appended as JSON lines
VERIF_FAULT  JSON list of {"where", "event", "match", "nth", "how"}:
             where: "main" / "helper" / "any" process,
             event: audit event, match: regex over text of its arguments,
             nth: number of the event or 0 for each, how: see act()
VERIF_FSIZE  soft limit of size of files ("N" or "N:kill")
"""
import json
import os
import re
import sys

_audit = os.environ.get('VERIF_AUDIT')
_faults = json.loads(os.environ.get('VERIF_FAULT') or '[]')
_limit = os.environ.get('VERIF_FSIZE')
_main = os.environ.setdefault('VERIF_MAIN', str(os.getpid()))

_WATCHED = {
    'os.fork', 'os.forkpty', 'os.exec', 'os.posix_spawn', 'os.spawn',
    'os.system', 'subprocess.Popen', 'webbrowser.open', 'os.remove',
    'os.rename', 'os.rmdir', 'os.mkdir', 'os.chdir', 'os.chmod', 'os.chown',
    'os.link', 'os.symlink', 'os.truncate', 'os.utime', 'os.putenv',
    'os.unsetenv', 'os.kill', 'os.killpg', 'os.setxattr', 'os.listdir_',
    'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'tempfile.mkstemp',
    'tempfile.mkdtemp', 'socket.__new__', 'socket.connect', 'socket.bind',
    'socket.getaddrinfo', 'socket.sendto', 'urllib.Request',
    'ftplib.connect', 'smtplib.connect', 'http.client.connect',
    'signal.pthread_kill', 'builtins.input', 'sys.settrace',
    'sys.setprofile', 'ctypes.dlopen', 'resource.setrlimit', 'mmap.__new__',
    'pty.spawn', 'syslog.syslog', 'sqlite3.connect', 'fcntl.flock',
    'os.mkfifo', 'os.mknod',
}


def _is_main():
    return str(os.getpid()) == _main


def _is_helper():
    # set by the machinery of multiprocessing only for its workers
    process = sys.modules.get('multiprocessing.process')
    return (not _is_main() and process is not None
            and getattr(process, '_parent_process', None) is not None)


if _audit:
    _descriptor = os.open(_audit, os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                          0o644)
    os.set_inheritable(_descriptor, True)
    _importing = re.compile(
            r'(antigravity|this|idlelib|tkinter|turtle|turtledemo|test|'
            r'_tkinter|pip|lib2to3)(\..*)?').fullmatch

    def _record(event, args):
        if event == 'open':
            path, mode, flags = args
            if not isinstance(path, (str, bytes)) or not isinstance(
                    flags, int):
                return
            if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT
                            | os.O_TRUNC | os.O_APPEND):
                return
            args = [os.fsdecode(path), mode, flags]
        elif event == 'import':
            if not _importing(args[0]):
                return
            args = [args[0]]
        elif event not in _WATCHED and event != 'verif.phase':
            return
        try:
            text = json.dumps([os.getpid(), event,
                               [str(a)[:300] for a in args]])
            os.write(_descriptor, (text + '\n').encode())
        except OSError:
            pass

    sys.addaudithook(_record)

if _faults:
    for _fault in _faults:
        _fault['seen'] = 0
        _fault['pattern'] = re.compile(_fault.get('match') or '',
                                       re.DOTALL).search

    def _act(how):
        if how == 'raise':
            raise RuntimeError('injected failure')
        if how == 'memory':
            raise MemoryError('injected failure')
        if how == 'odd':
            class Odd(Exception):
                def __init__(self, a, b):
                    super().__init__('injected failure')

            raise Odd(1, 2)
        if how == 'interrupt':
            raise KeyboardInterrupt('injected failure')
        if how.startswith('oserror:'):
            number = int(how[8:])
            raise OSError(number, os.strerror(number) + ' (injected failure)')
        if how.startswith('exit:'):
            os._exit(int(how[5:]))
        if how.startswith('signal:'):
            os.kill(os.getpid(), int(how[7:]))
        if how.startswith('sleep:'):
            import time
            time.sleep(float(how[6:]))
        if how.startswith('slow:'):
            # file which is being opened stays truncated or partially written
            _slow_down([float(part) for part in how.split(':')[1:]])
        if how == 'partial':
            _slow_down([0, None])

    def _slow_down(delays):
        import time

        def tracer(frame, event, arg):
            if event != 'c_call':
                return
            if arg.__name__ == 'write' and delays:
                delay = delays.pop(0)
                if delay is None:
                    os.kill(os.getpid(), 9)
                time.sleep(delay)
            if not delays or arg.__name__ in ('close', '__exit__'):
                sys.setprofile(None)

        sys.setprofile(tracer)

    def _inject(event, args):
        for fault in _faults:
            if event != fault['event']:
                continue
            where = fault.get('where', 'any')
            if where == 'main' and not _is_main():
                continue
            if where == 'helper' and not _is_helper():
                continue
            if not fault['pattern'](' '.join(map(str, args))):
                continue
            fault['seen'] += 1
            if fault.get('nth') in (0, None, fault['seen']):
                _act(fault['how'])

    sys.addaudithook(_inject)

if _limit:
    import resource
    import signal
    _size, _, _mode = _limit.partition(':')
    if _mode == 'kill':
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_FSIZE,
                       (int(_size), resource.RLIM_INFINITY))
