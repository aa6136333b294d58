"""Core types shared by all checks: violations, run context, numeric helpers."""
import hashlib
import importlib.machinery
import importlib.util
import marshal
import math
import os
import struct
import sys

import numpy as np

REPO = os.environ.get("VSIM_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on this run.  `kind` is the violation class
    (stable under minimisation), `detail` a human readable explanation."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)[:1500]


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


class SimInterrupt(BaseException):
    """Injected asynchronous interruption (Ctrl-C, timeout, cancellation)."""


class Ctx:
    """Per-run record: counters, coverage, digest of everything observed."""

    def __init__(self):
        self.counters = {}
        self.cover = set()
        self.known = {}
        self.simtime = 0.0
        self._h = hashlib.blake2b(digest_size=12)
        self.nontrivial = False

    def count(self, key, k=1):
        if k:
            self.counters[key] = self.counters.get(key, 0) + int(k)

    def mark(self, *parts):
        """Record a reached (abstract) state for the distinct-state measure."""
        h = hashlib.blake2b(repr(parts).encode(), digest_size=6).hexdigest()
        self.cover.add(h)

    def log(self, *vals):
        """Feed observed values to the run digest; draws nothing, reads no clock."""
        for v in vals:
            if isinstance(v, np.ndarray):
                a = np.ascontiguousarray(v)
                self._h.update(str(a.dtype).encode() + str(a.shape).encode())
                if a.dtype == object:
                    self._h.update(repr(a.tolist()).encode())
                else:
                    self._h.update(a.tobytes())
            elif isinstance(v, float):
                self._h.update(struct.pack("<d", v))
            else:
                self._h.update(repr(v).encode())

    def known_finding(self, fid, what):
        self.known[fid] = what

    def digest(self):
        return self._h.hexdigest()


def lib():
    """The currently imported padasip (checks re-import it to model restarts)."""
    m = sys.modules.get("padasip")
    if m is None:
        import padasip  # noqa
        m = sys.modules["padasip"]
    return m


FIRST_IMPORT = None     # C21 watches the very first import of the library in a process
_CODE = {}
OPTIMISE = 0            # as python -O / -OO would load the library


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles every library file once per worker process; never touches pyc."""

    def get_code(self, fullname):
        # a new code object every time: the interpreter specialises bytecode in
        # place, which would make opcode-level schedules depend on earlier runs
        code = _CODE.get((self.path, OPTIMISE))
        if code is None:
            code = _CODE[self.path, OPTIMISE] = marshal.dumps(compile(self.get_data(self.path), self.path, "exec",
                                                                      dont_inherit=True, optimize=OPTIMISE))
        return marshal.loads(code)


def precompile():
    """Read and compile the whole library for the present OPTIMISE level, so
    that awkward conditions (no descriptors left) meet only the library."""
    for base, _, files in os.walk(os.path.join(REPO, "padasip")):
        for f in files:
            if f.endswith(".py"):
                try:
                    _Loader("padasip", os.path.join(base, f)).get_code("padasip")
                except (OSError, SyntaxError, ValueError):
                    pass


class _Finder:
    def find_spec(self, name, path=None, target=None):
        if name != "padasip" and not name.startswith("padasip."):
            return None
        base = os.path.join(REPO, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(name, init, loader=_Loader(name, init),
                                                          submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=_Loader(name, base + ".py"))
        return None


FINDER = _Finder()


def install_finder():
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)


def fresh_lib():
    """Forget every padasip module and import it again: a new process as far as
    module-level and class-level state of the library is concerned."""
    for name in [k for k in sys.modules if k == "padasip" or k.startswith("padasip.")]:
        del sys.modules[name]
    import padasip  # noqa
    from . import sched
    sched.seam_locks()
    return sys.modules["padasip"]


def describe(v):
    try:
        return np.array2string(np.asarray(v), precision=10, threshold=12)
    except Exception:
        return repr(v)[:200]


def same(a, b, rtol=1e-9, atol=0.0):
    """Elementwise agreement with a tolerance relative to the larger magnitude
    of the whole array; NaN agrees with NaN, inf with the same inf."""
    try:
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        if a.dtype == object or b.dtype == object or a.dtype.kind in "US" or b.dtype.kind in "US":
            return a.tolist() == b.tolist()
        if np.array_equal(a, b, equal_nan=(a.dtype.kind in "fc" and b.dtype.kind in "fc")):
            return True
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            return False
        if not np.array_equal(a[~fa], b[~fb], equal_nan=True):
            return False
        a, b = a[fa], b[fb]
        if a.size == 0:
            return True
        scale = max(float(np.max(np.abs(a))), float(np.max(np.abs(b))))
        return bool(np.max(np.abs(a - b)) <= atol + rtol * scale)
    except (TypeError, ValueError):
        return False


def maxdiff(a, b):
    try:
        a = np.asarray(a, dtype=np.longdouble)
        b = np.asarray(b, dtype=np.longdouble)
        if a.shape != b.shape:
            return f"shapes {a.shape} vs {b.shape}"
        return f"{float(np.max(np.abs(a - b))):.3g}" if a.size else "empty"
    except Exception as ex:
        return f"incomparable ({ex!r})"


def call(where, fn, *args, **kw):
    """Call the library where it has no reason to fail."""
    try:
        return fn(*args, **kw)
    except (Violation, HarnessError, SimInterrupt, Hang):
        raise
    except Exception as ex:  # noqa
        raise Violation(f"unexpected-exception:{where}", f"{type(ex).__name__}: {ex}")


class Hang(BaseException):
    """Raised by the watchdog inside a run that does not end."""


def chance(rng, p):
    return rng.random() < p


def pick(rng, *xs):
    return xs[rng.randrange(len(xs))]


def logu(rng, lo, hi):
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def r6(v):
    """Short, exactly reproducible JSON numbers."""
    return float(f"{v:.6g}")
