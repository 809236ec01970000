"""The seam: every source of nondeterminism prosimos touches, owned by one tape.

A `World` is one simulated process lifetime.  While it is entered:

  * the module-level generator of `random`, `secrets`/`SystemRandom`, `uuid`,
    `os.urandom` and `numpy.random.choice/rand` draw from one decision tape;
  * the remaining numpy / scipy draws come from numpy's global generator, which
    is seeded from the same integer;
  * the wall clock seen by prosimos / bpdfr_discovery is a simulated clock that
    advances by a planned amount at every reading and may jump;
  * files opened for writing below the world's directory go through a raw file
    object that counts, tears, refuses or loses writes according to the plan;
  * any draw from the tape, any clock reading and any raw write is a potential
    crash point.

Nothing here reads a real clock or an unseeded generator.
"""
import builtins
import datetime as _dt
import errno
import io
import locale
import os
import random
import secrets  # noqa: F401  (its SystemRandom must exist before patching)
import sys
import uuid  # noqa: F401

import numpy as np
import pandas as pd

_REAL_RANDOM_CLASS = random.Random
_REAL_OPEN = builtins.open
_REAL_URANDOM = os.urandom
_REAL_RAND_URANDOM = random._urandom
_REAL_RANDOM_RANDOM = random.random
_REAL_GETRANDBITS = random.getrandbits
_REAL_NP_CHOICE = np.random.choice
_REAL_NP_RAND = np.random.rand
_REAL_NP_DEFAULT_RNG = np.random.default_rng
_REAL_DATETIME = _dt.datetime
_REAL_DATE = _dt.date
# modules of dependencies that read the clock to complete dates
CLOCK_USERS = ("dateutil.parser._parser",
               "pix_framework.discovery.resource_calendar_and_performance.crisp.resource_calendar",
               "pix_framework.discovery.resource_calendar_and_performance.fuzzy.resource_calendar")


class SimCrash(BaseException):
    """The simulated process dies here."""


class HarnessError(Exception):
    """The harness itself is wrong (never a property violation)."""


class Tape:
    """Decision tape: floats in [0,1).  Recording draws from a private generator;
    replaying reads the list and answers 0.0 past its end (the default decision)."""

    def __init__(self, seed, replay=None):
        self.seed = seed
        self._rng = _REAL_RANDOM_CLASS(seed)
        self._ids = _REAL_RANDOM_CLASS(seed ^ 0x5EED1D5)
        self.replay = replay
        self.values = []
        self.labels = {}

    def draw(self, label):
        i = len(self.values)
        if self.replay is None:
            v = self._rng.random()
        elif i < len(self.replay):
            v = self.replay[i]
        else:
            v = 0.0
        self.values.append(v)
        self.labels[label] = self.labels.get(label, 0) + 1
        return v

    def id_bytes(self, n):
        return bytes(self._ids.getrandbits(8) for _ in range(n))


class FaultRaw(io.FileIO):
    """Raw file below Python's own buffering.  The plan decides what the disk does."""

    def __init__(self, path, mode, world):
        self._world = world
        self._dead = False
        self._role = world.role_of(path)
        super().__init__(path, mode)

    def write(self, data):
        w = self._world
        if self._dead or w.crashed:
            return len(data)  # a dead process's buffers reach nothing
        act = w.io_event("write", self._role)
        if act is None:
            return super().write(data)
        if act == "short":
            # legal: the kernel took only part of it
            n = max(1, len(data) // 2)
            return super().write(memoryview(data)[:n])
        if act == "torn":
            super().write(memoryview(data)[: len(data) // 2])
            self._dead = True
            raise OSError(errno.ENOSPC, "No space left on device (torn)")
        if act == "enospc":
            raise OSError(errno.ENOSPC, "No space left on device")
        if act == "eio":
            raise OSError(errno.EIO, "Input/output error")
        if act == "crash":
            super().write(memoryview(data)[: len(data) // 2])
            w.crash("raw write")
        raise HarnessError("unknown io act %r" % act)

    def close(self):
        if not self.closed:
            w = self._world
            act = None if (self._dead or w.crashed) else w.io_event("close", self._role)
            super().close()
            if act in ("eio", "enospc"):
                raise OSError(errno.EIO, "Input/output error on close")
            if act == "crash":
                w.crash("close")
        else:
            super().close()


class FaultReader(io.FileIO):
    """Raw file that is read: the disk may answer in small pieces or fail half-way."""

    def __init__(self, path, world):
        self._world = world
        self._role = world.role_of(path)
        super().__init__(path, "r")

    def readinto(self, buf):
        act = self._world.io_event("read", self._role)
        if act == "eio":
            raise OSError(errno.EIO, "Input/output error")
        if act == "short":
            return super().readinto(memoryview(buf)[:max(1, min(len(buf), 7))])
        return super().readinto(buf)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        return bytes(buf[:self.readinto(buf)])

    def readall(self):
        parts = []
        while True:
            x = self.read(65536)
            if not x:
                return b"".join(parts)
            parts.append(x)


class World:
    def __init__(self, root, tape, clock0=None, faults=None, buffer_size=None, step_limit=400_000):
        self.root = os.path.realpath(root)
        self.tape = tape
        self.faults = faults or []
        self.fired = {}
        self.clock = clock0 or _REAL_DATETIME(2024, 3, 4, 9, 30, 0, 123456)
        self.clock_reads = 0
        self.draws = 0
        self.crashed = False
        self.buffer_size = buffer_size or io.DEFAULT_BUFFER_SIZE
        self.io_counts = {}
        self.roles = {}
        self.step_limit = step_limit
        self.raws = []
        self.opens = []

    # ---- plan ----------------------------------------------------------------
    def role_of(self, path):
        return self.roles.get(os.path.realpath(str(path)), os.path.basename(str(path)))

    def _fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def crash(self, where):
        self._fire("crash@" + where.replace(" ", "_"))
        self.crashed = True
        raise SimCrash(where)

    def io_event(self, op, role):
        k = (op, role)
        n = self.io_counts.get(k, 0)
        self.io_counts[k] = n + 1
        for f in self.faults:
            if f["at"] == op and f.get("role") in (None, role):
                hit = n == f.get("nth", 0) or (f.get("sticky") and n >= f.get("nth", 0))
                if hit:
                    if f["kind"] != "crash":
                        self._fire("%s:%s:%s" % (f["kind"], op, role))
                    return f["kind"]
        return None

    def step(self, label):
        """Every decision is a step: a possible crash point, and the liveness bound."""
        n = self.draws
        self.draws += 1
        if n > self.step_limit:
            raise StepLimit("more than %d decisions" % self.step_limit)
        for f in self.faults:
            if f["at"] == "draw" and f.get("nth") == n:
                if f["kind"] == "crash":
                    self.crash("draw")
                if f["kind"] == "exc":
                    self._fire("exc@draw")
                    raise MemoryError("simulated allocation failure")
                if f["kind"] == "interrupt":
                    self._fire("interrupt@draw")
                    raise KeyboardInterrupt()
        return self.tape.draw(label)

    def now(self, tz=None):
        n = self.clock_reads
        self.clock_reads += 1
        self.clock += _dt.timedelta(milliseconds=7)
        for f in self.faults:
            if f["at"] == "clock" and f.get("nth") == n:
                self._fire("clock_jump")
                self.clock += _dt.timedelta(seconds=f["by"])
        t = self.clock
        if tz is not None:
            t = t.replace(tzinfo=_dt.timezone.utc).astimezone(tz)
        return t

    # ---- patches ---------------------------------------------------------------
    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
              closefd=True, opener=None):
        try:
            path = os.path.realpath(os.fspath(file))
        except TypeError:
            return _REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if isinstance(path, bytes) or not path.startswith(self.root + os.sep):
            return _REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in "wax+")
        act = self.io_event("open", self.role_of(path))
        if act == "enoent":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if act in ("eacces", "enospc", "eio"):
            raise OSError(errno.EACCES, "Permission denied", path)
        self.opens.append((mode, os.path.basename(path)))
        if not writing and any(f["at"] == "read" for f in self.faults):
            buf = io.BufferedReader(FaultReader(path, self), self.buffer_size)
            return buf if "b" in mode else io.TextIOWrapper(buf, encoding or locale.getpreferredencoding(False), errors, newline)
        if not writing or "+" in mode:
            return _REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = FaultRaw(path, mode.replace("t", "").replace("b", ""), self)
        self.raws.append(raw)
        buf = io.BufferedWriter(raw, self.buffer_size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or locale.getpreferredencoding(False), errors, newline)

    def __enter__(self):
        world = self
        inst = random._inst

        class SeamRandom(_REAL_RANDOM_CLASS):
            def random(self):
                return world.step("random")

            def getrandbits(self, k):
                return int(world.step("bits") * (1 << k))

            def seed(self, *a, **k):
                return None

        self._saved_inst_class = inst.__class__
        inst.__class__ = SeamRandom
        random.random = inst.random
        random.getrandbits = inst.getrandbits
        random.seed = inst.seed
        random._urandom = lambda n: int(world.step("sys") * (1 << (8 * n))).to_bytes(n, "big")
        os.urandom = lambda n: world.tape.id_bytes(n)
        np.random.seed((self.tape.seed ^ 0xA5A5A5) & 0x7FFFFFFF)

        def np_choice(a, size=None, replace=True, p=None):
            if size not in (None, 1, (1,)) or not isinstance(a, (list, tuple, np.ndarray)):
                return _REAL_NP_CHOICE(a, size, replace, p)
            arr = np.array(a)
            if arr.ndim != 1 or len(arr) == 0:
                return _REAL_NP_CHOICE(a, size, replace, p)
            if p is None:
                idx = min(int(world.step("np.choice") * len(arr)), len(arr) - 1)
            else:
                pv = np.asarray(p, dtype=float)
                if len(pv) != len(arr):
                    raise ValueError("'a' and 'p' must have same size")
                if np.isnan(pv).any() or (pv < 0).any():
                    raise ValueError("probabilities are not non-negative")
                if abs(pv.sum() - 1.0) > 1e-8 * 1.5:
                    raise ValueError("probabilities do not sum to 1")
                cdf = pv.cumsum()
                cdf /= cdf[-1]
                idx = int(cdf.searchsorted(world.step("np.choice"), side="right"))
            return arr[idx] if size is None else arr[[idx]]

        def np_rand(*dims):
            if dims in ((1,), ()):
                u = world.step("np.rand")
                return u if dims == () else np.array([u])
            return _REAL_NP_RAND(*dims)

        np.random.choice = np_choice
        np.random.rand = np_rand
        np.random.default_rng = lambda seed=None: _REAL_NP_DEFAULT_RNG(
            self.tape.seed if seed is None else seed)
        builtins.open = self._open
        io.open = self._open
        self._patch_clock()
        return self

    def __exit__(self, *exc):
        builtins.open = _REAL_OPEN
        io.open = _REAL_OPEN
        inst = random._inst
        inst.__class__ = self._saved_inst_class
        random.random = _REAL_RANDOM_RANDOM
        random.getrandbits = _REAL_GETRANDBITS
        random.seed = inst.seed
        random._urandom = _REAL_RAND_URANDOM
        os.urandom = _REAL_URANDOM
        np.random.choice = _REAL_NP_CHOICE
        np.random.rand = _REAL_NP_RAND
        np.random.default_rng = _REAL_NP_DEFAULT_RNG
        for mod, name, val in reversed(self._clock_saved):
            setattr(mod, name, val)
        for raw in self.raws:
            raw._dead = True
            if self.crashed and not raw.closed:
                try:
                    io.FileIO.close(raw)
                except Exception:
                    pass
        return False

    def _patch_clock(self):
        world = self

        class _Meta(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, _REAL_DATETIME)

            def __subclasscheck__(cls, sub):
                return issubclass(sub, _REAL_DATETIME)

        class FakeDatetime(_REAL_DATETIME, metaclass=_Meta):
            def __new__(cls, *a, **k):
                return _REAL_DATETIME(*a, **k)

            @classmethod
            def now(cls, tz=None):
                return world.now(tz)

            @classmethod
            def utcnow(cls):
                return world.now()

            @classmethod
            def today(cls):
                return world.now()

        class _DMeta(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, _REAL_DATE)

        class FakeDate(_REAL_DATE, metaclass=_DMeta):
            def __new__(cls, *a, **k):
                return _REAL_DATE(*a, **k)

            @classmethod
            def today(cls):
                return world.now().date()

        class _Proxy:
            datetime = FakeDatetime
            date = FakeDate

            def __getattr__(self, name):
                return getattr(_dt, name)

        class _TMeta(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, pd.Timestamp)

            def __getattr__(cls, name):
                return getattr(pd.Timestamp, name)

        class FakeTimestamp(metaclass=_TMeta):
            """A time of day without a date is completed with the current date."""
            def __new__(cls, *a, **k):
                while True:
                    day = _REAL_DATE.today()
                    t = pd.Timestamp(*a, **k)
                    if _REAL_DATE.today() == day:
                        break
                if a and isinstance(a[0], str) and "-" not in a[0] and t is not pd.NaT and t.date() == day:
                    n = world.now()
                    t = t.replace(year=n.year, month=n.month, day=n.day)
                return t

        class _Pandas:
            Timestamp = FakeTimestamp

            def __getattr__(self, name):
                return getattr(pd, name)

        proxy, pandas_proxy = _Proxy(), _Pandas()
        self._clock_saved = []
        for mname, mod in list(sys.modules.items()):
            if mod is None or not (mname.split(".")[0] in ("prosimos", "bpdfr_discovery", "cli") or mname in CLOCK_USERS):
                continue
            for name, val in list(vars(mod).items()):
                new = None
                if val is _dt:
                    new = proxy
                elif val is _REAL_DATETIME:
                    new = FakeDatetime
                elif val is _REAL_DATE:
                    new = FakeDate
                elif val is pd:
                    new = pandas_proxy
                if new is not None:
                    self._clock_saved.append((mod, name, val))
                    setattr(mod, name, new)


class StepLimit(Exception):
    """The run took more decisions than the bound: no progress (liveness)."""
