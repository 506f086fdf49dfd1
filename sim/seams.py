"""Process-wide seams: deterministic hashing and simulator-owned locks.

Installed in a zygote before the library (and lark) is imported, so that everything
that asks for a hash or a lock through the usual Python names gets ours.
"""
import _thread
import builtins
import threading
import zlib

real_hash = builtins.hash
real_allocate_lock = _thread.allocate_lock
real_rlock = _thread.RLock
get_ident = _thread.get_ident

_M = (1 << 61) - 1


class HashSeam:
    """builtins.hash as a pure function of (salt, value).

    Types hash by qualified name instead of address; strings by salt; tuples and frozensets
    element-wise. `bits` truncates hashes of tuples headed by a class (the shape formula hashes
    have) so that collisions between different formulas are common.
    """

    def __init__(self, salt: int, bits: int):
        self.salt = salt
        self.bits = bits
        self._names = {}

    def _type(self, t):
        h = self._names.get(t)
        if h is None:
            h = zlib.crc32(f"{self.salt}:{t.__module__}.{t.__qualname__}".encode())
            self._names[t] = h
        return h

    def _h(self, x):
        t = type(x)
        if t is tuple:
            acc = 0x345678 + self.salt
            for e in x:
                acc = (acc * 1000003 ^ self._h(e)) % _M
            return acc
        if isinstance(x, type):
            return self._type(x)
        if x is None:
            return 0xFCA86420 ^ self.salt
        return real_hash(x)

    def __call__(self, x):
        h = self._h(x)
        if self.bits and type(x) is tuple and x and isinstance(x[0], type):
            h &= (1 << self.bits) - 1
        return h


def tame_identity(prefix):
    """Identity hashes of the library's objects come from addresses: number the objects instead, in the order they are first hashed.

    A hash that is not the identity hash passes through untouched.
    """
    import enum
    import sys

    ident = object.__hash__
    seen = {}  # id -> (number, object); holding the object keeps the id its own

    def number(x):
        k = id(x)
        e = seen.get(k)
        if e is None:
            e = seen[k] = ((len(seen) + 1) * 0x9E3779B97F4A7C15 ^ _seam.salt * 0x85EBCA6B) % _M, x
        return e[0]

    def wrap(fn):
        def __hash__(self):
            h = fn(self)
            return number(self) if h == ident(self) else h

        return __hash__

    for name, mod in sorted(sys.modules.items()):
        if name == prefix or name.startswith(prefix + "."):
            for c in list(vars(mod).values()):
                if isinstance(c, type) and c.__module__ == name and c.__hash__ is not None and not issubclass(c, (type, BaseException, str, tuple, int, enum.Enum)):
                    if "__hash__" in vars(c) and callable(vars(c)["__hash__"]) or c.__hash__ is ident and not hasattr(c, "__members__"):
                        try:
                            c.__hash__ = wrap(vars(c)["__hash__"] if "__hash__" in vars(c) else ident)
                        except TypeError:
                            pass


# --------------------------------------------------------------------------- locks

_sim = None  # the running simulation, if any


def set_sim(sim):
    global _sim
    _sim = sim


created_locks = 0


class SimLock:
    """A non-reentrant lock whose waiting is decided by the simulator."""

    def __init__(self):
        global created_locks
        created_locks += 1
        self._owner = None
        self._locked = False

    def _me(self):
        return get_ident()

    def acquire(self, blocking=True, timeout=-1):
        sim = _sim
        t = sim.current_thread() if sim is not None else None
        if t is not None:
            sim.lock_point(t)
        tries = 0
        while self._locked:
            if not blocking:
                return False
            if t is None:
                raise RuntimeError("lock acquired twice outside the simulation: self-deadlock")
            if timeout is not None and timeout >= 0:
                tries += 1
                if tries > 3:
                    return False
                sim.yield_now(t)
                continue
            sim.block(t, self)
        self._locked = True
        self._owner = self._me()
        if t is not None:
            t.held += 1
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        self._owner = None
        sim = _sim
        if sim is not None:
            t = sim.current_thread()
            if t is not None:
                t.held -= 1
            sim.unblock(self)

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._owner = None


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        if self._locked and self._owner == self._me():
            self._count += 1
            return True
        if super().acquire(blocking, timeout):
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if not self._locked or self._owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            super().release()

    # protocol used by threading.Condition
    def _is_owned(self):
        return self._locked and self._owner == self._me()

    def _release_save(self):
        c = self._count
        self._count = 0
        SimLock.release(self)
        return c

    def _acquire_restore(self, c):
        SimLock.acquire(self)
        self._count = c


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._CRLock = None
    threading._PyRLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock


_seam = None


def collisions():
    """Do formula hashes collide on purpose in this interpreter?"""
    return _seam is not None and bool(_seam.bits)


def install(salt, bits):
    global _seam
    _seam = seam = HashSeam(salt, bits)
    builtins.hash = seam
    return seam


# --------------------------------------------------------------------------- clocks and random numbers

import random  # noqa: E402
import time  # noqa: E402

real_monotonic = time.monotonic
real_sleep = time.sleep
real_perf_counter = time.perf_counter


class Clock:
    """Simulated time: a microsecond per simulated step, plus the jumps and skew of the run."""

    def __init__(self):
        self.base = 1_700_000_000.0
        self.slept = 0.0
        self.reads = 0
        self.jumps = None

    def mono(self):
        self.reads += 1
        return 1000.0 + self.slept + (_sim.step * 1e-6 if _sim is not None else 0.0) + self.reads * 1e-7

    def wall(self):
        j = 0.0
        if self.jumps is not None and self.jumps.random() < 0.3:
            j = self.jumps.uniform(-86400, 86400)
        return self.base + self.mono() + j

    def sleep(self, s):
        self.slept += max(0.0, float(s))
        if _sim is not None:
            t = _sim.current_thread()
            if t is not None:
                _sim.yield_now(t)


clock = Clock()


def install_clock():
    time.time = clock.wall
    time.time_ns = lambda: int(clock.wall() * 1e9)
    time.monotonic = clock.mono
    time.monotonic_ns = lambda: int(clock.mono() * 1e9)
    time.perf_counter = clock.mono
    time.perf_counter_ns = lambda: int(clock.mono() * 1e9)
    time.process_time = clock.mono
    time.thread_time = clock.mono
    time.sleep = clock.sleep


def seed_run(seed):
    random.seed(f"run:{seed}")
    clock.jumps = random.Random(f"jumps:{seed}")
