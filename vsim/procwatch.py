"""The process around a computation: what a library call must leave as it was, what
it must not touch, and the awkward processes it has to work in."""
import atexit
import builtins
import decimal
import gc
import locale
import logging
import math
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

from .core import Violation

PREFIXES = ("open", "socket.", "subprocess.", "os.", "shutil.", "tempfile.", "ctypes.", "mmap.", "signal.", "time.sleep",
            "sqlite3.", "urllib.", "ftplib.", "smtplib.", "http.", "webbrowser.", "builtins.input", "builtins.breakpoint",
            "_thread.start", "fcntl.", "resource.", "pty.", "syslog.", "sys.settrace", "sys.setprofile", "sys.addaudithook",
            "glob.", "pathlib.", "telnetlib.", "imaplib.", "poplib.", "nntplib.", "ensurepip.", "winreg.", "cpython.run",
            "logging.")
HOOK = {"installed": False, "on": False, "seen": []}


def _importing():
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith("<frozen importlib"):
            return True
        f = f.f_back
    return False


def _audit(event, args):
    if HOOK["on"] and event.startswith(PREFIXES):
        HOOK["on"] = False
        try:
            if not _importing():
                HOOK["seen"].append(f"{event} {args!r}"[:200])
        finally:
            HOOK["on"] = True


def install():
    if not HOOK["installed"]:
        sys.addaudithook(_audit)
        HOOK["installed"] = True


class Sink:
    """A standard stream: remembers what was written, or cannot be written at all."""
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, broken=False):
        self.text, self.broken = [], broken

    def write(self, s):
        if s:
            self.text.append(str(s))
        if self.broken:
            raise BrokenPipeError(32, "Broken pipe")
        return len(s)

    def flush(self):
        if self.broken:
            raise BrokenPipeError(32, "Broken pipe")

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise OSError("no file descriptor")


SIGNALS = sorted(s for s in signal.valid_signals())
PATCHABLE = [("builtins", builtins), ("numpy", np), ("numpy.linalg", np.linalg), ("numpy.random", np.random), ("math", math),
             ("os", os), ("time", time), ("random", random)]


def snapshot():
    d = {}
    d["numpy error handling"] = np.geterr()
    d["numpy error callback"] = np.geterrcall()
    d["numpy print options"] = repr(sorted(np.get_printoptions().items()))
    d["numpy buffer size"] = np.getbufsize()
    d["warning filters"] = list(warnings.filters)
    d["warning display"] = warnings.showwarning
    d["environment"] = dict(os.environ)
    try:
        d["working directory"] = os.stat(".").st_ino
    except OSError:
        d["working directory"] = None
    m = os.umask(0o22)
    os.umask(m)
    d["umask"] = m
    d["signal handlers"] = [signal.getsignal(s) for s in SIGNALS]
    d["timers"] = (signal.getitimer(signal.ITIMER_VIRTUAL), signal.getitimer(signal.ITIMER_PROF))
    d["alarm"] = signal.getitimer(signal.ITIMER_REAL)[0] > 0
    d["recursion limit"] = sys.getrecursionlimit()
    d["switch interval"] = sys.getswitchinterval()
    d["import search"] = (list(sys.path), list(sys.meta_path), list(sys.path_hooks))
    d["exception hooks"] = (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook)
    d["standard streams"] = (sys.stdout, sys.stderr, sys.stdin)
    d["tracing"] = (sys.gettrace(), sys.getprofile())
    d["bytecode writing"] = sys.dont_write_bytecode
    d["integer digits"] = sys.get_int_max_str_digits()
    d["arguments"] = list(sys.argv)
    d["garbage collector"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count() > 0)
    d["threads"] = threading.active_count()
    d["decimal context"] = (decimal.getcontext().prec, decimal.getcontext().rounding)
    d["locale"] = locale.setlocale(locale.LC_ALL)
    d["time zone"] = time.tzname
    d["logging"] = (logging.root.level, list(logging.root.handlers), logging.root.manager.disable, logging.lastResort)
    d["exit handlers"] = atexit._ncallbacks()
    d["temporary directory"] = tempfile.tempdir
    d["denormals"] = float(np.float64(5e-324) * np.float64(1.0)) != 0.0
    d["resource limits"] = [resource.getrlimit(k) for k in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK,
                                                            resource.RLIMIT_CPU, resource.RLIMIT_FSIZE)]
    d["priority"] = os.getpriority(os.PRIO_PROCESS, 0)
    d["cpu affinity"] = sorted(os.sched_getaffinity(0))
    for name, mod in PATCHABLE:
        d["module " + name] = dict(vars(mod))
    return d


def fds():
    """Open file descriptors (where another one can be opened to look)."""
    try:
        return sorted(int(k) for k in os.listdir("/proc/self/fd"))
    except OSError:
        return None


def changed(a, b):
    """Names of the things that differ between two snapshots."""
    out = []
    for k in a:
        if k.startswith("module "):
            bad = [n for n, v in a[k].items() if n not in b[k] or b[k][n] is not v]
            bad += [n for n, v in b[k].items() if n not in a[k] and not isinstance(v, type(os))]
            bad = [n for n in bad if n not in ("__warningregistry__", "_")]
            if bad:
                out.append(f"{k}: {bad[:4]}")
        elif a[k] != b[k]:
            out.append(f"{k}: {str(a[k])[:80]} became {str(b[k])[:80]}")
    return out


class Watch:
    """with Watch(what): ... raises a Violation if the body changed or touched the
    surroundings of the process."""

    def __init__(self, what, ctx, broken=False):
        self.what, self.ctx, self.broken = what, ctx, broken

    def __enter__(self):
        install()
        self.old = sys.stdout, sys.stderr
        if sys.stdout is not None:
            sys.stdout = Sink(self.broken)
        if sys.stderr is not None:
            sys.stderr = Sink(self.broken)
        self.streams = sys.stdout, sys.stderr
        self.fd = fds()
        self.a = snapshot()
        del HOOK["seen"][:]
        HOOK["on"] = True
        return self

    def __exit__(self, et, ev, tb):
        HOOK["on"] = False
        b = snapshot()
        fd = fds()
        sys.stdout, sys.stderr = self.old
        self.leaks = changed(self.a, b)
        self.touched = list(HOOK["seen"])
        self.said = "".join("".join(s.text) for s in self.streams if s is not None)
        self.fdleak = sorted(set(fd) - set(self.fd)) if fd is not None and self.fd is not None else []
        if self.leaks:
            repair(self.a, b)
        self.ctx.count("calls_watched")
        return False

    def judge(self, leaks=True):
        if self.said:
            raise Violation("prints", f"{self.what} wrote {self.said[:200]!r}")
        if self.touched:
            raise Violation("touches", f"{self.what}: {self.touched[0]}")
        if self.fdleak:
            raise Violation("leaves-open", f"{self.what} left file descriptors {self.fdleak}")
        if self.leaks and leaks:
            raise Violation("changes:" + self.leaks[0].split(":")[0].replace(" ", "-"), f"{self.what} changed {self.leaks[:3]}")


def repair(a, b):
    """Undo what can be undone, so that a violation does not spoil later runs."""
    if a["numpy error handling"] != b["numpy error handling"]:
        np.seterr(**a["numpy error handling"])
    if a["numpy error callback"] is not b["numpy error callback"]:
        np.seterrcall(a["numpy error callback"])
    if a["numpy print options"] != b["numpy print options"]:
        np.set_printoptions(edgeitems=3, infstr="inf", linewidth=75, nanstr="nan", precision=8, suppress=False, threshold=1000,
                            formatter=None, sign="-", floatmode="maxprec", legacy=False)
    if a["warning filters"] != b["warning filters"]:
        warnings.filters[:] = a["warning filters"]
    if a["environment"] != b["environment"]:
        for k in set(os.environ) - set(a["environment"]):
            del os.environ[k]
        os.environ.update(a["environment"])
    for s, h, q in zip(SIGNALS, a["signal handlers"], b["signal handlers"]):
        if h != q and h is not None:
            try:
                signal.signal(s, h)
            except (OSError, ValueError):
                pass
    if a["recursion limit"] != b["recursion limit"]:
        sys.setrecursionlimit(a["recursion limit"])
    if a["switch interval"] != b["switch interval"]:
        sys.setswitchinterval(a["switch interval"])
    sys.path[:], sys.meta_path[:], sys.path_hooks[:] = a["import search"]
    if a["garbage collector"] != b["garbage collector"]:
        gc.set_threshold(*a["garbage collector"][1])
        (gc.enable if a["garbage collector"][0] else gc.disable)()
        if not a["garbage collector"][4]:
            gc.unfreeze()
    if a["umask"] != b["umask"]:
        os.umask(a["umask"])
    decimal.getcontext().prec, decimal.getcontext().rounding = a["decimal context"]
    sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook = a["exception hooks"]
    sys.argv[:] = a["arguments"]
    logging.root.handlers[:] = a["logging"][1]
    logging.root.setLevel(a["logging"][0])
    logging.disable(a["logging"][2])
    for name, mod in PATCHABLE:
        for n, v in a["module " + name].items():
            if vars(mod).get(n) is not v:
                setattr(mod, n, v)
        for n in [n for n, v in vars(mod).items() if n not in a["module " + name] and not isinstance(v, type(os))]:
            delattr(mod, n)


# ------------------------------------------------------------------ awkward processes
AWKWARD = ["broken_stdout", "no_stdout", "no_stdin", "removed_cwd", "no_more_files", "no_writes", "empty_environ", "gc_always",
           "gc_never", "print_options", "errstate_warn", "errstate_call", "decimal", "thread", "optimised", "deep_stack",
           "warnings_shown", "odd_locale", "small_buffer", "umask", "hashable_argv"]


class Awkward:
    """Puts the process into an awkward condition and takes it back."""

    def __init__(self, kinds, ctx):
        self.kinds, self.ctx = kinds, ctx
        self.undo = []

    def later(self, fn, *a, **k):
        self.undo.append(lambda: fn(*a, **k))

    def __enter__(self):
        try:
            for k in self.kinds:
                getattr(self, k, lambda: None)()
                self.ctx.count("fault:" + k)
        except BaseException:
            self.__exit__()
            raise
        return self

    def __exit__(self, *a):
        for fn in reversed(self.undo):
            fn()
        self.undo = []
        return False

    def no_stdout(self):
        self.later(setattr, sys, "stdout", sys.stdout)
        self.later(setattr, sys, "stderr", sys.stderr)
        sys.stdout = sys.stderr = None

    def no_stdin(self):
        self.later(setattr, sys, "stdin", sys.stdin)
        sys.stdin = None

    def removed_cwd(self):
        back = os.getcwd()
        d = tempfile.mkdtemp(prefix="vsim-cwd-")
        self.later(os.chdir, back)
        os.chdir(d)
        os.rmdir(d)

    def no_more_files(self):
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        used = len(os.listdir("/proc/self/fd")) - 1
        self.later(resource.setrlimit, resource.RLIMIT_NOFILE, (soft, hard))
        resource.setrlimit(resource.RLIMIT_NOFILE, (min(used, soft), hard))

    def no_writes(self):
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        old = signal.getsignal(signal.SIGXFSZ)
        self.later(signal.signal, signal.SIGXFSZ, old)
        self.later(resource.setrlimit, resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (0, hard))

    def empty_environ(self):
        old = dict(os.environ)
        self.later(os.environ.update, old)
        os.environ.clear()

    def gc_always(self):
        self.later(gc.set_threshold, *gc.get_threshold())
        gc.set_threshold(1, 1, 1)

    def gc_never(self):
        self.later(gc.enable if gc.isenabled() else gc.disable)
        gc.disable()

    def print_options(self):
        self.later(np.set_printoptions, **np.get_printoptions())
        np.set_printoptions(precision=1, threshold=3, edgeitems=1, suppress=True)

    def errstate_warn(self):
        self.later(np.seterr, **np.seterr(all="warn"))

    def errstate_call(self):
        self.later(np.seterrcall, np.seterrcall(lambda *a: None))
        self.later(np.seterr, **np.seterr(all="call"))

    def decimal(self):
        c = decimal.getcontext()
        self.later(setattr, c, "prec", c.prec)
        c.prec = 2

    def deep_stack(self):
        pass

    def warnings_shown(self):
        old = warnings.showwarning
        self.later(setattr, warnings, "showwarning", old)
        warnings.showwarning = lambda *a, **k: None
        flt = list(warnings.filters)
        self.later(warnings.filters.__setitem__, slice(None), flt)
        warnings.filters.insert(0, ("always", None, Warning, None, 0))

    def odd_locale(self):
        old = locale.setlocale(locale.LC_ALL)
        self.later(locale.setlocale, locale.LC_ALL, old)
        try:
            locale.setlocale(locale.LC_ALL, "C")
        except locale.Error:
            pass

    def small_buffer(self):
        self.later(np.setbufsize, np.setbufsize(16))

    def umask(self):
        self.later(os.umask, os.umask(0o777))

    def hashable_argv(self):
        old = list(sys.argv)
        self.later(sys.argv.__setitem__, slice(None), old)
        sys.argv[:] = ["", "--help"]


def deep(fn, k):
    """fn() below k frames of callers."""
    if k <= 0:
        return fn()
    return deep(fn, k - 1)


def scratch():
    """A scratch working directory; returns (path, leave)."""
    back = os.getcwd()
    d = tempfile.mkdtemp(prefix="vsim-proc-")
    os.chdir(d)

    def leave():
        os.chdir(back)
        left = sorted(os.listdir(d))
        shutil.rmtree(d)
        return left
    return d, leave
