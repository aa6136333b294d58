"""The surroundings a computation must not depend on, under simulator control:
clocks that jump, process identity, entropy, hash values, import order."""
import datetime
import importlib
import os
import platform
import random
import secrets
import socket
import sys
import threading
import time
import uuid

import numpy as np

from .core import fresh_lib

CLOCKS = ["time", "monotonic", "perf_counter", "process_time", "thread_time"]
SUBMODULES = ["padasip.filters.lms", "padasip.filters.ap", "padasip.filters.base_filter", "padasip.filters.ocnlms",
              "padasip.filters", "padasip.detection.le", "padasip.detection.ese", "padasip.detection",
              "padasip.preprocess.lda", "padasip.preprocess.pca", "padasip.preprocess", "padasip.misc",
              "padasip.misc.error_evaluation", "padasip.ann.mlp", "padasip.ann"]


class Environs:
    """Patches the modules a library could ask about time, place and luck.
    Every reading of the clock moves it, sometimes backwards."""

    def __init__(self, seed, count=None):
        self.r = random.Random(seed)
        self.t = self.r.choice([0.0, 1e9, 1.7e9, 4e9, self.r.uniform(0, 2e9)])
        self.style = self.r.choice(["steady", "jumps", "backwards", "frozen"])
        self.count = count or (lambda k: None)
        self.saved = []

    def now(self):
        self.count("fault:clock_" + self.style)
        s = self.style
        if s == "steady":
            self.t += 1e-4
        elif s == "jumps":
            self.t += self.r.choice([1e-6, 1.0, 3600.0, 86400.0 * 400])
        elif s == "backwards":
            self.t -= self.r.choice([1e-6, 1.0, 3600.0])
        return self.t

    def _set(self, mod, name, value):
        if hasattr(mod, name):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, value)

    def __enter__(self):
        r = self.r
        for c in CLOCKS:
            self._set(time, c, self.now)
            self._set(time, c + "_ns", lambda: int(self.now() * 1e9))
        env = self
        real = datetime.datetime

        class FakeDatetime(real):
            @classmethod
            def now(cls, tz=None):
                return real.fromtimestamp(abs(env.now()) % 4e9, tz)

            @classmethod
            def utcnow(cls):
                return real.fromtimestamp(abs(env.now()) % 4e9)

            @classmethod
            def today(cls):
                return cls.now()
        self._set(datetime, "datetime", FakeDatetime)
        pid = r.randrange(2, 1 << 22)
        self._set(os, "getpid", lambda: pid)
        self._set(os, "getppid", lambda: pid - 1)
        host = "host%d" % r.randrange(1000)
        self._set(socket, "gethostname", lambda: host)
        self._set(platform, "node", lambda: host)
        ncpu = r.choice([1, 2, 8, 64])
        self._set(os, "cpu_count", lambda: ncpu)
        node = r.getrandbits(48)
        self._set(uuid, "getnode", lambda: node)
        rr = random.Random(r.getrandbits(32))

        def entropy(k):
            self.count("fault:entropy")
            return rr.randbytes(k)
        self._set(os, "urandom", entropy)
        self._set(random, "_urandom", entropy)
        self._set(uuid, "uuid4", lambda: uuid.UUID(int=rr.getrandbits(128)))
        self._set(secrets, "randbits", rr.getrandbits)
        self._set(np.random.bit_generator, "randbits", rr.getrandbits)
        self._set(sys, "argv", ["prog%d" % r.randrange(100)])
        self.environ = {"VSIM_X": str(r.random()), "TZ": r.choice(["UTC", "Asia/Tokyo"])}
        self.old_env = {k: os.environ.get(k) for k in self.environ}
        os.environ.update(self.environ)
        return self

    def __exit__(self, *a):
        for mod, name, v in reversed(self.saved):
            setattr(mod, name, v)
        for k, v in self.old_env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        return False


def import_in_order(seed):
    """A fresh import that visits the submodules in another order."""
    fresh_lib()
    for name in [k for k in sys.modules if k.startswith("padasip")]:
        del sys.modules[name]
    r = random.Random(seed)
    names = list(SUBMODULES)
    r.shuffle(names)
    for n in names[:r.randint(0, len(names))]:
        try:
            importlib.import_module(n)
        except ModuleNotFoundError:
            pass
    import padasip  # noqa
    from . import sched
    sched.seam_locks()


def in_thread(fn):
    """fn() on another thread (exactly one thread runs at any time)."""
    box = []

    def go():
        np.seterr(all="ignore")
        try:
            box.append((fn(), None))
        except BaseException as ex:  # noqa
            box.append((None, ex))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if box[0][1] is not None:
        raise box[0][1]
    return box[0][0]


class SLabel(str):
    """A class label whose hash is chosen by the simulator."""
    salt = 0

    def __hash__(self):
        return (sum(map(ord, self)) * 2654435761 ^ SLabel.salt * 40503) % (1 << 31)

    def __eq__(self, o):
        return str.__eq__(self, o)

    def __ne__(self, o):
        return str.__ne__(self, o)


class ILabel(int):
    salt = 0

    def __hash__(self):
        return (int(self) * 2654435761 ^ SLabel.salt * 40503) % (1 << 31)

    def __eq__(self, o):
        return int.__eq__(self, o)

    def __ne__(self, o):
        return int.__ne__(self, o)
