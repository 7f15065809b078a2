"""File-system interposition: numbered effect points, where the explorer may inject
an error or end the process (a hard kill: nothing buffered is written)."""
import builtins
import errno
import io
import os

_real_open = builtins.open
_real = {name: getattr(os, name) for name in
         ('mkdir', 'remove', 'unlink', 'rmdir', 'rename', 'replace', 'symlink', 'link', 'truncate')}

ctl = None  # active controller


class Controller:
    """Counts effect points under `root`; `decide(index, op, path, size)` returns None or
    an action: ('raise', exc) before the effect; ('partial', exc) write half, then raise;
    ('kill',) end the process before the effect; ('kill_partial',) write half, then end it;
    ('kill_after',) end the process right after the effect."""

    def __init__(self, root, decide=None, point=None):
        self.root = os.path.realpath(root)
        self.decide = decide
        self.point = point  # scheduling point callback
        self.log = []

    def covers(self, path):
        if isinstance(path, int):
            return False
        try:
            path = os.path.abspath(os.fsdecode(path))
        except TypeError:
            return False
        return path == self.root or path.startswith(self.root + '/')

    def hit(self, op, path, size=None):
        index = len(self.log)
        self.log.append((op, os.path.relpath(os.path.abspath(os.fsdecode(path)), self.root)))
        if self.point:
            self.point(op, path)
        if self.decide is None:
            return None
        action = self.decide(index, op, path, size)
        if action is None:
            return None
        if action[0] == 'raise':
            raise action[1]
        if action[0] == 'kill':
            os._exit(77)
        return action


class FileIO(io.FileIO):
    _mc_ctl = None

    def write(self, b):
        c = self._mc_ctl
        if c is None or c is not ctl:
            return super().write(b)
        action = c.hit('write', self.name, len(b))
        if action is not None:
            if action[0] in ('partial', 'kill_partial'):
                half = bytes(b)[:len(b) // 2]
                if half:
                    super().write(half)
                if action[0] == 'kill_partial':
                    os._exit(77)
                raise action[1]
            if action[0] == 'kill_after':
                super().write(b)
                os._exit(77)
        return super().write(b)


BUFFER = 8192

def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    c = ctl
    if c is None or opener is not None or isinstance(file, int) or not any(ch in mode for ch in 'wax+') or not c.covers(file):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    action = c.hit('open', file)
    rawmode = mode.replace('b', '').replace('t', '')
    raw = FileIO(os.fspath(file), rawmode)
    if action is not None and action[0] == 'kill_after':
        os._exit(77)
    raw._mc_ctl = c
    if buffering == 0:
        return raw
    size = BUFFER if buffering in (-1, 1) else buffering
    buf = io.BufferedRandom(raw, size) if '+' in rawmode else io.BufferedWriter(raw, size)
    if 'b' in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
    text.mode = mode
    return text


def _wrap1(name, pathindex=0):
    real = _real[name]
    def f(*args, **kw):
        c = ctl
        if c is None:
            return real(*args, **kw)
        path = args[pathindex] if len(args) > pathindex else kw.get('path', kw.get('dst'))
        if path is None or kw.get('dir_fd') is not None or not c.covers(path):
            if kw.get('dir_fd') is not None:
                # step of a tree removal
                action = c.hit(name, os.path.join(c.root, '(tree)', os.fsdecode(path)))
                r = real(*args, **kw)
                if action is not None and action[0] == 'kill_after':
                    os._exit(77)
                return r
            return real(*args, **kw)
        action = c.hit(name, path)
        try:
            return real(*args, **kw)
        finally:
            if action is not None and action[0] == 'kill_after':
                os._exit(77)
    f.__name__ = name
    return f


_installed = False

def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = _open
    io.open = _open
    for name in ('mkdir', 'remove', 'unlink', 'rmdir', 'truncate'):
        setattr(os, name, _wrap1(name))
    for name in ('rename', 'replace', 'symlink', 'link'):
        setattr(os, name, _wrap1(name, 1))
    # shutil keeps its fd-based removal: names in these sets must be the new ones
    for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks):
        for name, real in _real.items():
            if real in s:
                s.add(getattr(os, name))


class active:
    """with active(controller): ..."""

    def __init__(self, controller):
        self.c = controller

    def __enter__(self):
        global ctl
        assert ctl is None
        ctl = self.c
        return self.c

    def __exit__(self, *exc):
        global ctl
        ctl = None
        return False


def enospc():
    return OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))


def run_killed(fn):
    """Run fn() in a forked child (which a controller may kill). Return its exit status:
    0 completed, 77 killed at the chosen point, 1 raised"""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, 50)
            fn()
            code = 0
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status):
        return os.WEXITSTATUS(status)
    return 128 + os.WTERMSIG(status)


def is_temporary(path):
    name = path.rsplit('/', 1)[-1]
    return name.startswith('.') or name.endswith(('.part', '.tmp', '~'))


def snapshot(root, skip=()):
    """{relative path: ('f', bytes) | ('l', target) | ('d',)} (directories only if empty)"""
    out = {}
    stack = ['']
    while stack:
        base = stack.pop()
        n = 0
        with os.scandir(os.path.join(root, base)) as it:
            for e in it:
                rel = f"{base}{e.name}"
                n += 1
                if rel in skip:
                    continue
                if e.is_symlink():
                    out[rel] = ('l', os.readlink(e.path))
                elif e.is_dir(follow_symlinks=False):
                    stack.append(rel + '/')
                else:
                    with _real_open(e.path, 'rb') as f:
                        out[rel] = ('f', f.read())
        if n == 0 and base:
            out[base.rstrip('/')] = ('d',)
    return out


def view(root, skip=()):
    """Content as seen by a reader following links: {relative path: bytes | None if dangling}"""
    out = {}
    for base, dirs, files in os.walk(root, followlinks=True):
        for name in files:
            path = os.path.join(base, name)
            rel = os.path.relpath(path, root)
            if rel in skip:
                continue
            try:
                with _real_open(path, 'rb') as f:
                    out[rel] = f.read()
            except FileNotFoundError:
                out[rel] = None
    return out
