"""Environment of a case in a worker process"""
import io
import os
import shutil
import signal
import sys
import time
import traceback
from contextlib import contextmanager, redirect_stdout, redirect_stderr

from . import guard


class Timeout(BaseException):
    pass


class HarnessKill(BaseException):
    """Stands for an interrupt hitting the code under test"""


def preload():
    """Import the code under test (while still able to read it)"""
    import logging
    import requests, requests.adapters, ujson, pyzstd, xxhash, PIL.Image, PIL.PngImagePlugin, PIL.DdsImagePlugin  # noqa
    import PIL.JpegImagePlugin, PIL.TgaImagePlugin, PIL.BmpImagePlugin  # noqa
    import PIL.Image
    PIL.Image.init()
    import encodings.idna, encodings.latin_1, encodings.ascii, encodings.utf_8  # noqa
    import multiprocessing.pool, multiprocessing.dummy  # noqa
    import multiprocessing.synchronize, multiprocessing.queues  # noqa
    import hachoir.parser, hachoir.metadata  # noqa
    import cdtb.storage, cdtb.patcher, cdtb.rads, cdtb.tools, cdtb.wad, cdtb.export, cdtb.hashes  # noqa
    import cdtb.binfile, cdtb.rstfile, cdtb.sknfile, cdtb.tftdata, cdtb.arenadata, cdtb.data, cdtb.__main__  # noqa
    logging.disable(logging.CRITICAL)
    root = os.path.dirname(os.path.dirname(os.path.abspath(cdtb.__file__)))
    from .run import REPO
    assert os.path.realpath(root) == os.path.realpath(REPO), root


class Output(io.StringIO):
    """Captured output, which is not a terminal"""
    fd = None

    def fileno(self):
        if Output.fd is None:
            with guard.disabled():
                Output.fd = os.open(os.devnull, os.O_WRONLY)
        return Output.fd


class Env:
    def __init__(self, scratch, n):
        self.scratch = scratch
        self.n = n
        self.dir = os.path.join(scratch, "c%d" % n)
        self.op_timeout = 15
        self.last_tb = None
        self.timeouts = 0

    def path(self, *parts):
        return os.path.join(self.dir, *parts)

    def cleanup(self):
        with guard.disabled():
            os.chdir(self.scratch)
            shutil.rmtree(self.dir, ignore_errors=True)

    def call(self, fn, *args, **kwargs):
        """Call the code under test: ("ok", value) or ("raised", exception class name)"""
        limit = 3 if self.timeouts else self.op_timeout
        t0, cpu0 = time.monotonic(), time.process_time()

        def on_alarm(signum, frame):
            # be patient on a busy machine
            if time.process_time() - cpu0 < limit * .6 and time.monotonic() - t0 < limit * 2.5:
                signal.setitimer(signal.ITIMER_REAL, limit / 4)
                return
            self.timeouts += 1
            raise Timeout()
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            v = fn(*args, **kwargs)
            return "ok", v
        except SystemExit as e:
            return "exit", e.code
        except (Exception, Timeout, HarnessKill, KeyboardInterrupt) as e:
            self.last_exc = e
            self.last_tb = traceback.format_exc()
            return "raised", type(e).__name__
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def cli(self, args):
        """Run the command line: status, stdout, stderr"""
        import cdtb.__main__ as m
        out, err = Output(), Output()
        argv = sys.argv
        sys.argv = ["cdtb"] + list(args)
        try:
            with redirect_stdout(out), redirect_stderr(err):
                st, v = self.call(m.main)
        finally:
            sys.argv = argv
        if st == "exit":
            st = "exit:%s" % (v,)
        elif st == "raised":
            st = "raised:" + v
        return st, out.getvalue(), err.getvalue()


def run_case(mod, case, env):
    with guard.disabled():
        os.makedirs(env.dir)
        os.chdir(env.dir)
    return mod.run(case, env)


# -- projections --

def fstree(root, token=None, relto=None):
    """{relative path: [kind, token]} of everything under root (directories only if empty)"""
    ret = {}
    root = os.path.abspath(root)
    for dirpath, dirnames, filenames in os.walk(root):
        rel = os.path.relpath(dirpath, root)
        for name in list(dirnames):
            p = os.path.join(dirpath, name)
            if os.path.islink(p):
                dirnames.remove(name)
                filenames.append(name)
        if not dirnames and not filenames and rel != ".":
            ret[rel] = ["d", ""]
        for name in filenames:
            p = os.path.join(dirpath, name)
            r = name if rel == "." else os.path.join(rel, name)
            if os.path.islink(p):
                ret[r] = ["l", os.readlink(p)]
            elif os.path.isfile(p):
                with open(p, "rb") as f:
                    data = f.read()
                ret[r] = ["f", token(data) if token else data.hex()]
            else:
                ret[r] = ["o", ""]
    return ret
