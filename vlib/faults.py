"""Faults at file-system operations of the code under test

Every change to the file system made through Python counts as one operation (opening for writing, each write,
close, rename, mkdir, symlink, remove...). The fault takes place at the n-th one.
"""
import builtins
import errno
import io
import os
import shutil
import signal
import threading
import time

from . import guard


class Counter:
    """kind: "error" (OSError), "interrupt" (KeyboardInterrupt), "kill" (end of process), None (count only)
    when: "before" or "after" the operation takes effect (writes: "half" of the data is written)
    """

    def __init__(self, at=None, kind=None, when="before", err=errno.ENOSPC, sticky=False, root=None, lazy=False, match=None):
        self.at, self.kind, self.when, self.err, self.sticky = at, kind, when, err, sticky
        self.n = 0
        self.fired = None
        self.lock = threading.RLock()
        self.root = root
        self.lazy = lazy
        self.match = match
        self.ops = []

    def _fire(self, label):
        self.fired = self.fired or label
        if self.kind == "kill":
            os._exit(77)
        if self.kind == "interrupt" and threading.current_thread() is threading.main_thread():
            raise KeyboardInterrupt()
        raise OSError(self.err, os.strerror(self.err))

    def step(self, label, path, effect, half=None):
        """Perform an operation, with the fault if this is its turn"""
        if not guard._enabled:
            return effect()
        with self.lock:
            if self.root is not None and not os.path.abspath(os.fsdecode(path)).startswith(self.root):
                return effect()
            if self.match is not None and not self.match(label, path):
                return effect()
            self.n += 1
            turn = self.at is not None and self.kind is not None and (self.n == self.at or (self.sticky and self.fired and label in ("open", "write", "close", "mkdir", "symlink")))
            if len(self.ops) < 2000:
                self.ops.append(label)
            if not turn:
                return effect()
            if self.when == "before":
                self._fire(label)
            if self.when == "half" and half is not None:
                half()
                self._fire(label)
            effect()
            self._fire(label)


class WriteProxy:
    """File opened for writing"""

    def __init__(self, f, path, counter):
        self._f, self._path, self._c = f, path, counter
        self._buf = []

    def write(self, data):
        c = self._c
        if c.lazy:
            self._buf.append(data if isinstance(data, str) else bytes(data))
            return len(data)

        def effect():
            n = self._f.write(data)
            self._f.flush()
            return n

        def half():
            self._f.write(data[:len(data) // 2])
            self._f.flush()
        return c.step("write", self._path, effect, half)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        self._drain()
        self._f.flush()

    def _drain(self):
        if self._buf:
            data = self._buf[0][:0].join(self._buf)
            self._buf = []

            def effect():
                self._f.write(data)
                self._f.flush()

            def half():
                self._f.write(data[:len(data) // 2])
                self._f.flush()
            self._c.step("write", self._path, effect, half)

    def close(self):
        if self._f.closed:
            return
        try:
            self._drain()
        except BaseException:
            self._f.close()
            raise

        try:
            self._c.step("close", self._path, self._f.close)
        except BaseException:
            self._f.close()
            raise

    def truncate(self, *a):
        self._drain()
        return self._f.truncate(*a)

    def seek(self, *a):
        self._drain()
        return self._f.seek(*a)

    def tell(self):
        self._drain()
        return self._f.tell()

    def read(self, *a):
        self._drain()
        return self._f.read(*a)

    def fileno(self):
        if self._c.lazy:
            raise io.UnsupportedOperation("fileno")
        return self._f.fileno()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)


class FsFaults:
    def __init__(self, counter):
        self.c = counter

    def __enter__(self):
        c = self.c
        real_open = builtins.open
        import _io

        def fopen(file, mode="r", *a, **kw):
            if not isinstance(mode, str) or not any(ch in mode for ch in "wax+") or isinstance(file, int) or not guard._enabled:
                return real_open(file, mode, *a, **kw)
            if c.root is not None and not os.path.abspath(os.fsdecode(file)).startswith(c.root):
                return real_open(file, mode, *a, **kw)
            holder = []

            def effect():
                holder.append(real_open(file, mode, *a, **kw))
                return holder[0]
            try:
                f = c.step("open", file, effect)
            except BaseException:
                for x in holder:
                    x.close()
                raise
            return WriteProxy(f, file, c)
        self._saved = [(builtins, "open", real_open), (io, "open", io.open), (_io, "open", _io.open), (shutil, "_USE_CP_SENDFILE", shutil._USE_CP_SENDFILE)]
        builtins.open = io.open = _io.open = fopen
        shutil._USE_CP_SENDFILE = False

        def wrap(name, pathpos):
            real = getattr(os, name)
            self._saved.append((os, name, real))

            def f(*a, **kw):
                if kw.get("dir_fd") is not None:
                    return real(*a, **kw)
                path = a[pathpos] if len(a) > pathpos else "."
                return c.step(name, path, lambda: real(*a, **kw))
            setattr(os, name, f)
        for name, pos in (("mkdir", 0), ("replace", 1), ("rename", 1), ("symlink", 1), ("link", 1), ("remove", 0), ("unlink", 0), ("rmdir", 0), ("truncate", 0)):
            wrap(name, pos)
        return c

    def __exit__(self, *a):
        for mod, name, val in reversed(self._saved):
            setattr(mod, name, val)


def in_child(fn, timeout=20):
    """Run fn in a forked process. Return its exit status (77 if it has been killed by a fault, -1 if it hangs)"""
    with guard.disabled():
        pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            fn()
            code = 0
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    end = time.time() + timeout
    while time.time() < end:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(status)
        time.sleep(.001)
    with guard.disabled():
        os.kill(pid, 9)
    os.waitpid(pid, 0)
    return -1
