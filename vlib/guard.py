"""Containment of the code under test.

Drivers run as an unprivileged user (see run.py) whose only writable files are
in a scratch directory. On top of that, an audit hook refuses file-system
changes outside of the scratch directory, process creation and network
connections; refused attempts are recorded.
"""
import os
import sys

escapes = []
_root = None
_enabled = False


class Escape(PermissionError):
    pass


def _inside(path):
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    path = os.fspath(path)
    if path in ("/dev/null", os.devnull):
        return True
    path = os.path.abspath(path)
    parent = os.path.realpath(os.path.dirname(path))
    full = os.path.join(parent, os.path.basename(path))
    return full == _root or full.startswith(_root + "/")


def _check(event, path):
    if isinstance(path, int):
        return
    if not _inside(path):
        escapes.append(f"{event} {path}")
        raise Escape(f"refused by the harness: {event} {path}")


_WFLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _hook(event, args):
    global _enabled
    if not _enabled:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        if (isinstance(mode, str) and any(ch in mode for ch in "wax+")) or (isinstance(flags, int) and flags & _WFLAGS):
            _check(event, path)
    elif event in ("os.remove", "os.rmdir", "shutil.rmtree"):
        if len(args) > 1 and args[1] not in (None, -1):
            return
        _check(event, args[0])
    elif event == "os.mkdir":
        if args[2] not in (None, -1):
            return
        _check(event, args[0])
    elif event in ("os.rename", "os.link"):
        _check(event, args[0])
        _check(event, args[1])
    elif event == "os.symlink":
        if args[2] in (None, -1):
            _check(event, args[1])
    elif event in ("os.truncate", "os.chmod", "os.chown", "os.utime"):
        _check(event, args[0])
    elif event in ("subprocess.Popen", "os.system", "os.kill", "os.killpg", "socket.connect", "os.posix_spawn", "os.exec"):
        if event == "socket.connect" and _allow_loopback(args):
            return
        escapes.append(event)
        raise Escape(f"refused by the harness: {event}")


def _allow_loopback(args):
    addr = args[1]
    return isinstance(addr, tuple) and addr[0] in ("127.0.0.1", "localhost")


def install(root):
    global _root, _enabled
    _root = os.path.realpath(root)
    _enabled = True
    sys.addaudithook(_hook)


class disabled:
    """The harness' own operations"""
    def __enter__(self):
        global _enabled
        self.prev = _enabled
        _enabled = False

    def __exit__(self, *a):
        global _enabled
        _enabled = self.prev


def take_escapes():
    global escapes
    ret, escapes = escapes, []
    return ret
