"""Deterministic simulation core.

One process, one thread, one virtual clock.  Everything nondeterministic that
zigpy touches is behind a seam owned here:

* the event loop (``SimLoop``): virtual time, FIFO ready queue (as asyncio
  guarantees), randomised order of timers that expire at the same instant,
  injected stalls (the clock jumps over several timers at once);
* wall clock (``datetime.now``, ``time.time``, ``time.monotonic``);
* randomness (``random``, ``random.SystemRandom``, ``os.urandom``);
* executor threads (run in the loop after a drawn delay);
* SQLite worker thread (sim/storage.py) and HTTP (sim/http.py), radio
  (sim/radio.py).

``install()`` must run before zigpy is imported.
"""
from __future__ import annotations

import asyncio
import collections
import datetime as _dt
import gc
import hashlib
import heapq
import logging
import os
import random
import sys
import time
import traceback
import warnings
import weakref

REPO = os.environ.get("VERIF_REPO", "/repo")

_real_datetime = _dt.datetime
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_urandom = os.urandom
_real_SystemRandom = random.SystemRandom

WORLD: "World | None" = None

EPOCH = _real_datetime(2024, 1, 1, 0, 0, 0, tzinfo=_dt.timezone.utc)
LOOP_T0 = 1000.0


class SimDatetime(_real_datetime):
    @classmethod
    def now(cls, tz=None):
        w = WORLD
        if w is None:
            return super().now(tz)
        n = w.wall()
        r = cls(n.year, n.month, n.day, n.hour, n.minute, n.second, n.microsecond, _dt.timezone.utc)
        if tz is None:
            return r.replace(tzinfo=None)
        return r.astimezone(tz)

    @classmethod
    def utcnow(cls):
        w = WORLD
        if w is None:
            return cls.now(_dt.timezone.utc).replace(tzinfo=None)
        return cls.now()


def _sim_time():
    w = WORLD
    return _real_time() if w is None else w.wall().timestamp()


def _sim_monotonic():
    w = WORLD
    return _real_monotonic() if w is None else w.loop.time()


def _sim_urandom(n):
    w = WORLD
    if w is None:
        return _real_urandom(n)
    return w.prng.randbytes(n)


class SimSystemRandom(random.Random):
    """SystemRandom whose entropy is the run's PRNG."""

    def random(self):
        return (WORLD.prng if WORLD is not None else _fallback).random()

    def getrandbits(self, k):
        return (WORLD.prng if WORLD is not None else _fallback).getrandbits(k)

    def seed(self, *a, **k):
        return None


_fallback = _real_SystemRandom()
_installed = False


def install():
    """Install the seams; idempotent; must precede the first zigpy import."""
    global _installed
    if _installed:
        return
    assert "zigpy" not in sys.modules, "install() must run before zigpy is imported"
    _installed = True
    sys.dont_write_bytecode = True
    _dt.datetime = SimDatetime
    time.time = _sim_time
    time.monotonic = _sim_monotonic
    os.urandom = _sim_urandom
    random.SystemRandom = SimSystemRandom
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    if os.environ.get("SIM_LOG"):
        logging.basicConfig(level=os.environ["SIM_LOG"])
    else:
        logging.disable(logging.CRITICAL)
    import zigpy

    got = os.path.realpath(os.path.dirname(zigpy.__file__))
    want = os.path.realpath(os.path.join(REPO, "zigpy"))
    assert got == want, (got, want)


# --------------------------------------------------------------------------
class SimDeadlock(BaseException):
    """Nothing is runnable and no timer is armed while the driver waits."""


class SimStepLimit(BaseException):
    """The run executed more callbacks than any legitimate run needs."""


class SimWallTimeout(BaseException):
    """The run exceeded its wall-clock allowance (a synchronous endless loop)."""


class HarnessError(Exception):
    """A defect of the harness, never reported as a violation."""


class Decisions:
    """Every random fault, delay and ordering choice of a run.

    Seeded mode derives each draw from (seed, point, occurrence), so removing
    one operation from a plan does not reshuffle unrelated draws.  Explicit
    mode replays a recorded map; anything missing takes its default.
    """

    def __init__(self, seed=None, recorded=None):
        assert (seed is None) != (recorded is None)
        self.seed = seed
        self.given = recorded
        self.taken = {}
        self.counts = collections.Counter()

    def _key(self, point):
        n = self.counts[point]
        self.counts[point] = n + 1
        return f"{point}#{n}"

    def _u(self, key):
        h = hashlib.blake2b(f"{self.seed}|{key}".encode(), digest_size=8).digest()
        return int.from_bytes(h, "big") / 2.0**64

    def chance(self, point, p):
        key = self._key(point)
        if self.given is not None:
            v = bool(self.given.get(key, False))
        else:
            v = p > 0 and self._u(key) < p
        if v:
            self.taken[key] = True
        return v

    def pick(self, point, n, weights=None):
        """Index in range(n); default 0."""
        key = self._key(point)
        if n <= 1:
            return 0
        if self.given is not None:
            v = int(self.given.get(key, 0))
            if not 0 <= v < n:
                v = 0
        else:
            u = self._u(key)
            if weights is None:
                v = min(int(u * n), n - 1)
            else:
                tot = float(sum(weights))
                acc = 0.0
                v = 0
                for i, w in enumerate(weights):
                    acc += w / tot
                    if u < acc:
                        v = i
                        break
        if v:
            self.taken[key] = v
        return v

    def uniform(self, point, lo, hi, grid=None):
        """A float in [lo, hi]; default lo; with ``grid`` half of the draws are
        multiples of it so that independent events tie."""
        key = self._key(point)
        if self.given is not None:
            v = float(self.given.get(key, lo))
        else:
            u = self._u(key)
            if grid:
                if u < 0.5:
                    k = int(u * 2 * (int((hi - lo) / grid) + 1))
                    v = lo + k * grid
                else:
                    v = lo + (u - 0.5) * 2 * (hi - lo)
            else:
                v = lo + u * (hi - lo)
            v = round(min(v, hi), 6)
        if v != lo:
            self.taken[key] = v
        return v


class SimTimerHandle(asyncio.TimerHandle):
    pass


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self, world):
        super().__init__()
        self.world = world
        self._now = LOOP_T0
        self._timers = []
        self._seq = 0
        self._task_no = 0
        self._tasks_no = weakref.WeakKeyDictionary()
        self.steps = 0
        self.max_steps = 400_000
        self._clock_resolution = 1e-9
        self.stalls_left = 0
        self.stall_p = 0.0
        self.stall_max = 0.0

    def create_task(self, coro, **kw):
        task = super().create_task(coro, **kw)
        self._task_no = self._tasks_no[task] = self._task_no + 1
        return task

    def tasks_in_order(self):
        """All tasks that are not done, oldest first (`all_tasks` is an unordered set)."""
        return sorted(asyncio.all_tasks(self), key=lambda t: self._tasks_no.get(t, -1))

    # -- plumbing BaseEventLoop expects
    def time(self):
        return self._now

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        pass

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)

    def call_at(self, when, callback, *args, context=None):
        self._check_closed()
        h = SimTimerHandle(when, callback, args, self, context)
        self._seq += 1
        heapq.heappush(self._timers, (when, self._seq, h))
        h._scheduled = True
        return h

    def _timer_handle_cancelled(self, handle):
        pass

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        w = self.world
        d = w.dec.uniform("exec.delay", 0.0, w.exec_delay, grid=w.exec_delay / 4 if w.exec_delay else None)

        def go():
            try:
                if w.exec_fault is not None:
                    w.exec_fault(func)
                r = func(*args)
            except BaseException as e:  # noqa: BLE001
                if isinstance(e, (SimWallTimeout, SimStepLimit, SimDeadlock)):
                    raise
                if not fut.done():
                    if isinstance(e, StopIteration):
                        e = RuntimeError("StopIteration")
                    fut.set_exception(e)
            else:
                if not fut.done():
                    fut.set_result(r)

        w.stats["executor_calls"] += 1
        self.call_later(d, go)
        return fut

    async def shutdown_default_executor(self, timeout=None):
        return None

    def _run_once(self):
        w = self.world
        if w.wall_timeout:
            raise SimWallTimeout()
        timers = self._timers
        while timers and timers[0][2]._cancelled:
            heapq.heappop(timers)
        if not self._ready:
            if self._stopping:
                return
            if not timers:
                raise SimDeadlock()
            when = timers[0][0]
            if when > self._now:
                if w.on_quiet is not None:
                    w.on_quiet()
                self._now = when
            if self.stalls_left > 0 and w.dec.chance("loop.stall", self.stall_p):
                self.stalls_left -= 1
                j = w.dec.uniform("loop.stall_len", 0.0, self.stall_max, grid=0.5)
                w.stats["fault_stall"] += 1
                self._now += j
        # everything due joins the ready queue, in order of expiry; timers that
        # expire at the same instant in an order the decisions choose
        while timers and timers[0][0] <= self._now:
            when = timers[0][0]
            batch = []
            while timers and timers[0][0] == when:
                h = heapq.heappop(timers)[2]
                if not h._cancelled:
                    batch.append(h)
            while len(batch) > 1:
                i = w.dec.pick("loop.tie", len(batch)) if w.tie_shuffle else 0
                if i:
                    w.stats["tie_reordered"] += 1
                self._ready.append(batch.pop(i))
            if batch:
                self._ready.append(batch[0])
        n = len(self._ready)
        for _ in range(n):
            h = self._ready.popleft()
            if h._cancelled:
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise SimStepLimit()
            h._run()
        h = None


class Violation:
    __slots__ = ("rule", "msg", "at")

    def __init__(self, rule, msg, at):
        self.rule, self.msg, self.at = rule, msg, at

    def as_dict(self):
        return {"rule": self.rule, "message": self.msg, "sim_time": self.at}


class World:
    """The context of one simulated run."""

    def __init__(self, decisions, trace=False, scratch=None):
        self.dec = decisions
        self.trace = trace
        self.scratch = scratch
        self.loop = None
        self.stats = collections.Counter()
        self.violations = []
        self.digest = hashlib.blake2b(digest_size=16)
        self.shape = hashlib.blake2b(digest_size=8)
        self.states = set()
        self.lines = []
        self.prng = random.Random(12345)
        self.wall_timeout = False
        self.wall_skew = 0.0
        self.exec_delay = 0.0
        self.exec_fault = None
        self.tie_shuffle = True
        self.loop_errors = []
        self.event_seq = 0
        self.frozen = False
        self.on_quiet = None  # called when nothing is runnable, before time moves

    def wall(self):
        return EPOCH + _dt.timedelta(seconds=self.loop._now - LOOP_T0 + self.wall_skew)

    @property
    def now(self):
        return self.loop._now

    def log(self, kind, *what):
        """Record an observable event (feeds digest, shape and trace)."""
        if self.frozen:
            return self.event_seq
        self.event_seq += 1
        s = f"{self.loop._now - LOOP_T0:.6f} {kind} {what!r}"
        self.digest.update(s.encode())
        self.shape.update(kind.encode() + b";")
        if self.trace:
            self.lines.append(s)
        return self.event_seq

    def state(self, *key):
        """Note an abstract state reached."""
        self.states.add(hash_state(key))

    def violate(self, rule, msg):
        if self.frozen:
            return
        self.log("VIOLATION", rule)
        self.violations.append(Violation(rule, msg, round(self.loop._now - LOOP_T0, 6)))

    def check(self, cond, rule, msg):
        if not cond:
            self.violate(rule, msg() if callable(msg) else msg)
        return cond


def hash_state(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


def frames_of(exc):
    """(in_zigpy, text) for an exception's traceback."""
    tb = traceback.extract_tb(exc.__traceback__)
    root = os.path.realpath(os.path.join(REPO, "zigpy"))
    inz = any(os.path.realpath(f.filename).startswith(root) for f in tb)
    txt = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-12:])
    return inz, txt


def run_world(coro_fn, decisions, *, seed_int=0, trace=False, scratch=None,
              max_steps=400_000, setup=None):
    """Run ``coro_fn(world)`` to completion in a fresh simulated world."""
    global WORLD
    world = World(decisions, trace=trace, scratch=scratch)
    loop = SimLoop(world)
    loop.max_steps = max_steps
    world.loop = loop
    world.prng.seed(f"prng{seed_int}")
    random.seed(f"rand{seed_int}")

    def on_err(lp, ctx):
        e = ctx.get("exception")
        world.loop_errors.append((ctx.get("message", ""), repr(e)))
        if world.trace:
            world.lines.append(f"{loop._now - LOOP_T0:.6f} LOOP_ERROR {ctx.get('message')} {e!r}")
            if e is not None:
                world.lines.append(frames_of(e)[1])

    loop.set_exception_handler(on_err)
    gc_was = gc.isenabled()
    gc.disable()
    WORLD = world
    asyncio.set_event_loop(loop)
    try:
        if setup:
            setup(world)
        task = loop.create_task(coro_fn(world))
        world.main_task = task
        try:
            loop.run_until_complete(task)
        except SimDeadlock:
            world.violate("hang", "nothing is runnable and no timer is armed, but the driver still waits: "
                          + _where(task))
        except SimStepLimit:
            world.violate("livelock", f"more than {loop.max_steps} callbacks executed: " + _where(task))
        except SimWallTimeout as e:
            world.violate("endless-loop", "the run did not finish: " + "".join(traceback.format_tb(e.__traceback__)[-4:]))
        except HarnessError:
            if not world.violations:
                raise
        except Exception as e:  # noqa: BLE001
            inz, txt = frames_of(e)
            if inz:
                world.violate("unexpected-exception", txt)
            elif isinstance(e, (AttributeError, ImportError, NameError, TypeError)):
                # the scenario does not fit the code (unless it already failed)
                if not world.violations:
                    raise
            else:
                # something the scenario relies on did not happen (a device is
                # missing, a request over a perfect radio failed, ...)
                world.violate("unexpected-outcome", txt)
        world.stats["steps"] += loop.steps
        world.stats["sim_ms"] += int((loop._now - LOOP_T0) * 1000)
    finally:
        # throw everything still pending away without running it further
        world.frozen = True
        asyncio.events._set_running_loop(loop)
        try:
            _discard(loop)
        finally:
            asyncio.events._set_running_loop(None)
            WORLD = None
            asyncio.set_event_loop(None)
            if gc_was:
                gc.enable()
    world.digest.update(repr(sorted((v.rule, v.at) for v in world.violations)).encode())
    return world


def _where(task):
    try:
        st = task.get_stack()
        return "; ".join(f"{f.f_code.co_filename}:{f.f_lineno}" for f in st)
    except Exception:  # noqa: BLE001
        return "?"


def _discard(loop):
    loop._ready.clear()
    loop._timers.clear()
    loop.set_exception_handler(lambda *_: None)
    for t in loop.tasks_in_order():
        t._log_destroy_pending = False
        try:
            t.cancel()
        except Exception:  # noqa: BLE001
            pass
    # let cancellations unwind, bounded, so that coroutines are closed
    loop.max_steps = loop.steps + 20_000
    loop.world.tie_shuffle = False
    loop.world.dec = _NullDecisions()
    loop.stalls_left = 0
    loop.world.exec_fault = None
    loop.world.trace = False
    try:
        for _ in range(300):
            if not loop._ready:
                break
            loop._stopping = True
            n = len(loop._ready)
            for _ in range(n):
                h = loop._ready.popleft()
                if not h._cancelled:
                    h._run()
    except BaseException:  # noqa: BLE001
        pass
    loop._ready.clear()
    loop._timers.clear()
    try:
        loop.close()
    except Exception:  # noqa: BLE001
        pass


class _NullDecisions:
    def chance(self, *a):
        return False

    def pick(self, *a, **k):
        return 0

    def uniform(self, point, lo, hi, grid=None):
        return lo
