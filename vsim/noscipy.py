"""Faults of the optional dependency: SciPy, or any part of it, missing or broken."""
import sys
import types

KINDS = {
    "missing": lambda n: ModuleNotFoundError(f"No module named {n!r}", name=n),
    "import": lambda n: ImportError(f"DLL load failed while importing {n}"),
    "abi": lambda n: ValueError("numpy.dtype size changed, may indicate binary incompatibility"),
    "attr": lambda n: AttributeError("module 'numpy' has no attribute 'long'"),
    "oserror": lambda n: OSError("cannot open shared object file"),
    "runtime": lambda n: RuntimeError("module compiled against another API version"),
    "syntax": lambda n: SyntaxError("invalid syntax"),
    "memory": lambda n: MemoryError(),
}


class Blocker:
    """A finder that fails for `target` (and what is below it), or at the nth
    import of anything of SciPy, before or in the middle of loading it."""

    def __init__(self, kind, target=None, nth=None, late=False):
        self.kind, self.target, self.nth, self.late = kind, target, nth, late
        self.n, self.fired = 0, 0

    def find_spec(self, name, path=None, target=None):
        if name != "scipy" and not name.startswith("scipy."):
            return None
        self.n += 1
        hit = (name == self.target or name.startswith(self.target + ".")) if self.target else self.n == self.nth
        if not hit:
            return None
        self.fired += 1
        if self.late:
            import importlib.util
            return importlib.util.spec_from_loader(name, self, is_package=True)
        raise KINDS[self.kind](name)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.half = 1
        raise KINDS[self.kind](module.__name__)


class Gone:
    """Context in which SciPy cannot be imported, in one of several ways."""

    def __init__(self, how, kind):
        self.how, self.kind = how, kind

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items() if k == "scipy" or k.startswith("scipy.")}
        self.block = None
        how = self.how
        if how in ("all", "late"):
            self._purge("scipy")
            self.block = Blocker(self.kind, "scipy", late=how == "late")
        elif how in ("stats", "stats_late"):
            self._purge("scipy.stats")
            self.block = Blocker(self.kind, "scipy.stats", late=how == "stats_late")
        elif how == "none":
            self._purge("scipy")
            sys.modules["scipy"] = None
        elif how == "none_stats":
            self._purge("scipy.stats")
            sys.modules["scipy.stats"] = None
        elif how == "empty":                      # some other thing called scipy
            self._purge("scipy")
            sys.modules["scipy"] = types.ModuleType("scipy")
        elif how == "no_genpareto":
            self._purge("scipy.stats")
            sys.modules["scipy.stats"] = types.ModuleType("scipy.stats")
        if self.block:
            sys.meta_path.insert(0, self.block)
        self.mine = {k for k in self._names() if sys.modules[k] is None}
        self.path = (list(sys.path), list(sys.meta_path), list(sys.path_hooks))
        return self

    def _names(self):
        return [k for k in sys.modules if k == "scipy" or k.startswith("scipy.")]

    def left_behind(self):
        """What somebody did to the import system in the meantime so that SciPy stays
        unavailable when it is there again."""
        bad = sorted(k for k in self._names() if sys.modules[k] is None and k not in self.mine)
        if (list(sys.path), list(sys.meta_path), list(sys.path_hooks)) != self.path:
            bad.append("sys.path or sys.meta_path")
        return bad

    def _purge(self, top):
        for k in [k for k in sys.modules if k == top or k.startswith(top + ".")]:
            del sys.modules[k]

    def __exit__(self, *a):
        if self.block:
            sys.meta_path.remove(self.block)
        self._purge("scipy")
        sys.modules.update(self.saved)
        return False


HOWS = ["all", "late", "stats", "stats_late", "none", "none_stats", "empty", "no_genpareto"]
