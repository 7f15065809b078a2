"""Containment of the code under test: unprivileged user, and an audit hook which
refuses (and records) any file-system change outside of the scratch directory."""
import os
import sys

escapes = []
_root = None
NOBODY = 65534


def chown_scratch(path):
    if os.geteuid() != 0:
        return
    for base, dirs, files in os.walk(path):
        os.chown(base, NOBODY, NOBODY)
        for f in files:
            os.lchown(os.path.join(base, f), NOBODY, NOBODY)


def drop_privileges():
    if os.geteuid() != 0:
        return
    try:
        os.setgroups([])
        os.setresgid(NOBODY, NOBODY, NOBODY)
        os.setresuid(NOBODY, NOBODY, NOBODY)
    except OSError:
        pass  # the audit hook remains


class EscapeError(PermissionError):
    pass


_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_allowed_exact = {'/dev/null', '/dev/tty'}


def _inside(path, follow):
    if isinstance(path, int):
        return True
    path = os.fsdecode(path)
    if follow:
        real = os.path.realpath(path)
    else:
        real = os.path.join(os.path.realpath(os.path.dirname(path) or '.'), os.path.basename(path))
    return real == _root or real.startswith(_root + '/') or real in _allowed_exact


def _require(event, path, follow=False):
    if not _inside(path, follow):
        escapes.append(f"{event} {path!r}")
        raise EscapeError(f"outside of scratch: {event} {path!r}")


def _hook(event, args):
    if _root is None:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(flags, int) and flags & _WRITE_FLAGS and not isinstance(path, int) and path is not None:
            _require(event, path, follow=True)
    elif event in ('os.remove', 'os.rmdir', 'os.mkdir'):
        dir_fd = args[-1]
        if isinstance(dir_fd, int) and dir_fd >= 0:
            return  # walk from an already checked directory (shutil.rmtree)
        _require(event, args[0])
    elif event == 'os.rename':
        _require(event, args[0])
        _require(event, args[1])
    elif event in ('os.symlink', 'os.link'):
        _require(event, args[1])
    elif event == 'shutil.rmtree':
        if args[1] is None or args[1] == -1:
            _require(event, args[0])
    elif event in ('os.truncate', 'os.chmod', 'os.chown', 'os.utime'):
        _require(event, args[0], follow=True)
    elif event in ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn', 'socket.connect', 'os.kill'):
        escapes.append(f"{event} {args!r}")
        raise EscapeError(f"refused: {event}")


_installed = False

def install(root):
    global _root, _installed
    _root = os.path.realpath(root)
    if not _installed:
        _installed = True
        sys.addaudithook(_hook)
