"""P21: retry, call sharing and timeout helpers keep their contracts."""
import asyncio

from sim.runner import Part

PROPERTY = "P21"
LEVEL = "exploration"
RUNS = {"quick": 60000, "thorough": 2000000}
BATCH = 300
PRELOAD = ("zigpy.util", "zigpy.datastructures", "zigpy.exceptions")
REAL = ["zigpy.util.retry / retryable / retryable_request", "zigpy.util.combine_concurrent_calls", "zigpy.datastructures.ReschedulableTimeout"]
STUBS = ["clock and scheduler", "the functions being retried and shared", "the timer callback"]
RULE = ("retry: 1..4 overlapping calls of functions with 1..6 scripted outcomes (success, listed, subclass of listed, unlisted, cancellation) and durations, "
        "cancelled at arbitrary times; share: 2..12 calls by position, keyword or default on two objects with slow, failing and cancelled executions; "
        "timer: 2..15 reschedules (earlier, later, zero), cancellations and reschedules from inside the callback; distinct = distinct event sequence")
STATES = "(kind, outcome, attempts / callers / reschedules) per call"
PROBES = ["retry_calls", "retry_ok", "retry_exhausted", "retry_passed_through", "retry_cancelled", "retried", "share_calls", "share_joined", "share_cancelled_one",
          "share_cancelled_all", "share_failed", "share_new_after_end", "timer_fired", "timer_moved_later", "timer_moved_earlier", "timer_cancelled", "timer_from_callback"]
ASSUMPTIONS = ["arguments of shared calls are hashable (documented)", "functions being shared do not suppress their own cancellation"]


def gen_retry(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        script = [[rng.choice(["ok", "listed", "listed", "listed", "sub", "other", "cancelled", "base"]), rng.choice([0, 0, 0.5, 1, 3])] for _ in range(rng.randint(1, 6))]
        ops.append({"dt": rng.choice([0, 0, 0.25, 2]), "script": script, "cancel": rng.choice([None, None, None, 0.03, 0.53, 1.03, 2.03, 5.03])})
    return {"cfg": {"form": rng.choice(["retry", "retryable", "request"]), "tries": rng.choice([1, 2, 3, 3, 5]), "delay": rng.choice([0, 0.1, 0.5, 2])}, "ops": ops}


async def run_retry(w, plan):
    import zigpy.exceptions as X
    import zigpy.util as U

    cfg = plan["cfg"]
    form = cfg["form"]

    class Listed(Exception):
        pass

    class Sub(Listed):
        pass

    class Base(BaseException):
        pass

    if form == "request":
        excs = {"listed": X.DeliveryError, "sub": asyncio.TimeoutError, "other": ValueError, "cancelled": asyncio.CancelledError, "base": Base}
    else:
        excs = {"listed": Listed, "sub": Sub, "other": ValueError, "cancelled": asyncio.CancelledError, "base": Base}
    calls = []

    class Call:
        def __init__(self, n, op):
            self.n, self.op = n, op
            self.script = op["script"]
            self.t0 = w.now
            self.attempts = []  # [start, end, kind, exception or value]
            self.outcome = None
            self.cancelled_at = None
            calls.append(self)

    async def work(n, key="k"):
        c = calls[n]
        i = len(c.attempts)
        w.check(key == f"v{n}", "wrong-arguments", lambda: f"call {n} was called with {key}")
        kind, dur = c.script[i] if i < len(c.script) else ["ok", 0]
        a = [w.now, None, kind, None]
        c.attempts.append(a)
        try:
            if dur:
                await asyncio.sleep(dur)
        except BaseException:
            a[1], a[2] = w.now, "interrupted"
            raise
        a[1] = w.now
        w.log("attempt", n, i, kind)
        if kind == "ok":
            a[3] = object()
            return a[3]
        a[3] = excs[kind]("x")
        raise a[3]

    if form == "retry":
        def deco(n):
            return U.retry(lambda: work(n, key=f"v{n}"), (Listed,), tries=cfg["tries"], delay=cfg["delay"])
    else:
        wrapped = (U.retryable((Listed,), tries=cfg["tries"], delay=cfg["delay"]) if form == "retryable" else U.retryable_request(tries=cfg["tries"], delay=cfg["delay"]))(work)

        def deco(n):
            return wrapped(n, key=f"v{n}")

    async def main(c):
        try:
            c.outcome = ("ok", await deco(c.n))
        except BaseException as e:  # noqa: BLE001
            c.outcome = ("raised", e)
        c.t1 = w.now
        w.log("end", c.n, c.outcome[0])

    tasks = []
    for n, op in enumerate(plan["ops"]):
        if op["dt"]:
            await asyncio.sleep(op["dt"])
        c = Call(n, op)
        t = asyncio.create_task(main(c))
        tasks.append(t)
        if op["cancel"] is not None:
            def stop(c=c, t=t):
                if not t.done():
                    c.cancelled_at = w.now
                    w.stats["fault_cancel"] += 1
                    t.cancel()

            asyncio.get_running_loop().call_later(op["cancel"], stop)
    done, pending = await asyncio.wait(tasks, timeout=1000)
    w.check(not pending, "never-ended", lambda: f"calls {[c.n for c in calls if c.outcome is None]} never ended")
    await asyncio.sleep(20)
    for c in calls:
        if c.outcome is None:
            continue
        w.stats["retry_calls"] += 1
        w.stats["retried"] += len(c.attempts) > 1
        # what had to happen
        t, want, n = c.t0, None, 0
        stop = float("inf") if c.cancelled_at is None else c.cancelled_at
        for i in range(cfg["tries"]):
            kind, dur = c.script[i] if i < len(c.script) else ["ok", 0]
            w.check(len(c.attempts) > i, "missing-attempt", lambda: f"call {c.n}: attempt {i} of {cfg['tries']} never happened: {c.attempts}")
            if len(c.attempts) <= i:
                return
            a = c.attempts[i]
            w.check(abs(a[0] - t) < 1e-6, "wrong-delay", lambda: f"call {c.n}: attempt {i} started at {a[0]} instead of {t}")
            n = i + 1
            if stop < t + dur - 1e-6:
                want, t = "cancel", stop
                break
            t += dur
            if kind == "ok" or kind not in ("listed", "sub") or n == cfg["tries"]:
                want = kind
                break
            if stop < t + cfg["delay"] - 1e-6:
                want, t = "cancel", stop
                break
            t += cfg["delay"]
        w.check(len(c.attempts) == n, "extra-attempt", lambda: f"call {c.n}: {len(c.attempts)} attempts instead of {n}: {c.attempts}")
        if want == "cancel":
            w.stats["retry_cancelled"] += 1
            good = c.outcome[0] == "raised" and isinstance(c.outcome[1], asyncio.CancelledError)
        elif want == "ok":
            w.stats["retry_ok"] += 1
            good = c.outcome == ("ok", c.attempts[-1][3])
        else:
            w.stats["retry_exhausted" if want in ("listed", "sub") else "retry_passed_through"] += 1
            good = c.outcome[0] == "raised" and (c.outcome[1] is c.attempts[-1][3] or want == "cancelled" and isinstance(c.outcome[1], asyncio.CancelledError))
        w.check(good, "wrong-outcome", lambda: f"call {c.n} ended with {c.outcome}, expected {want}: {c.attempts}")
        w.check(abs(c.t1 - t) < 1e-6, "wrong-time", lambda: f"call {c.n} ended at {c.t1} instead of {t}")
        w.state(("retry", want, len(c.attempts), form))


def gen_share(rng, tier):
    ops = []
    for _ in range(rng.randint(2, 12)):
        r = rng.random()
        dt = rng.choice([0, 0, 0, 0.25, 0.5, 1, 3])
        if r < 0.7:
            ops.append({"op": "call", "obj": rng.choice([0, 0, 0, 1]), "a": rng.choice([0, 0, 0, 1]), "b": rng.choice([0, 0, 1]), "form": rng.choice(["pos", "kw", "default", "default", "mixed"]),
                        "dt": dt})
        else:
            ops.append({"op": "cancel", "i": rng.randrange(12), "dt": dt})
    return {"cfg": {"script": [[rng.choice(["ok", "ok", "ok", "fail", "cancelled", "none"]), rng.choice([0, 0, 0.5, 1, 1, 2, 5])] for _ in range(6)]}, "ops": ops}


async def run_share(w, plan):
    import zigpy.util as U

    execs = []
    script = plan["cfg"]["script"]

    class Exec:
        def __init__(self, key):
            self.key, self.n, self.t0, self.t1 = key, len(execs), w.now, None
            self.kind, self.dur = script[self.n % len(script)]
            self.value = None
            self.ended = None
            self.callers = []
            execs.append(self)

    class Obj:
        def __init__(self, i):
            self.i = i

        @U.combine_concurrent_calls
        async def work(self, a, b=0, *, c=0):
            e = Exec((self.i, a, b, c))
            w.log("exec", e.n, e.key)
            try:
                if e.dur:
                    await asyncio.sleep(e.dur)
                if e.kind == "fail":
                    e.value = ValueError(f"failure of {e.n}")
                    raise e.value
                if e.kind == "cancelled":
                    raise asyncio.CancelledError("own")
                e.value = None if e.kind == "none" else f"result of {e.n}"
                return e.value
            except asyncio.CancelledError as x:
                if x.args != ("own",):
                    e.kind = "killed"
                raise
            finally:
                e.ended, e.t1 = True, w.now
                w.log("exec_end", e.n, e.kind)

    objs = [Obj(0), Obj(1)]
    calls = []

    class Call:
        def __init__(self, op):
            self.key = (op["obj"], op["a"], op["b"] if op["form"] != "default" else 0, 0)
            self.op, self.n, self.t0, self.t1 = op, len(calls), w.now, None
            self.outcome, self.cancelled = None, None
            self.before = len(execs)
            self.current = None
            calls.append(self)
            self.task = asyncio.create_task(self.main())

        async def main(self):
            op, o = self.op, objs[self.op["obj"]]
            self.started = w.now
            # what runs at the moment of the call
            self.current = next((x for x in execs if x.key == self.key and x.ended is None), None)
            self.before = len(execs)
            f = op["form"]
            try:
                if f == "pos":
                    r = await o.work(op["a"], op["b"])
                elif f == "kw":
                    r = await o.work(b=op["b"], a=op["a"])
                elif f == "mixed":
                    r = await o.work(op["a"], b=op["b"], c=0)
                else:
                    r = await o.work(op["a"])
                self.outcome = ("ok", r)
            except asyncio.CancelledError:
                self.outcome = ("cancelled", None)
            except Exception as e:  # noqa: BLE001
                self.outcome = ("raised", e)
            self.t1 = w.now
            w.log("call_end", self.n, self.outcome[0])

    for op in plan["ops"]:
        if op["dt"]:
            await asyncio.sleep(op["dt"])
        if op["op"] == "call":
            Call(op)
            w.stats["share_calls"] += 1
        else:
            await asyncio.sleep(0.0371)
            live = [c for c in calls if not c.task.done()]
            if live:
                c = live[op["i"] % len(live)]
                c.cancelled = w.now
                c.task.cancel()
                w.stats["fault_cancel"] += 1
    if calls:
        done, pending = await asyncio.wait([c.task for c in calls], timeout=100)
        w.check(not pending, "never-ended", lambda: f"calls {[c.n for c in calls if c.outcome is None]} never ended")
    await asyncio.sleep(20)
    for e in execs:
        w.check(e.ended is not None, "leaked", lambda: f"execution {e.n} of {e.key} is still running")
    # which execution each call belongs to
    for c in calls:
        if c.outcome is None or c.cancelled is not None and not hasattr(c, "started"):
            continue
        e = c.current
        if e is not None and e.kind == "killed" and e.t1 <= c.started + 1e-6:
            e = None  # its last caller had just been cancelled
        if e is None:
            e = next((x for x in execs[c.before :] if x.key == c.key), None)
        else:
            w.stats["share_joined"] += 1
        c.exec = e
        w.check(e is not None or c.cancelled is not None, "not-run", lambda: f"call {c.n} of {c.key} ran nothing")
        if e is not None:
            e.callers.append(c)
            w.check(e.t0 <= c.started + 1e-6, "late-start", lambda: f"call {c.n} made at {c.started} ran at {e.t0}")
    for e in execs:
        w.check(not any(x.key == e.key and x.n > e.n and x.t0 < e.t1 - 1e-6 for x in execs), "ran-twice", lambda: f"{e.key} ran again at a time execution {e.n} was running")
        w.check(bool(e.callers), "unasked-run", lambda: f"execution {e.n} of {e.key} was not asked for")
        killed = e.kind == "killed"
        live = [c for c in e.callers if c.cancelled is None]
        if killed:
            w.check(not live, "cancelled-by-another", lambda: f"execution {e.n} was cancelled although calls {[c.n for c in live]} wait for it")
            w.stats["share_cancelled_all"] += 1
        elif live and len(live) < len(e.callers):
            w.stats["share_cancelled_one"] += 1
        elif not live and e.callers:
            last = max(c.cancelled for c in e.callers)
            w.check(e.t1 <= last + 1e-6, "not-cancelled", lambda: f"execution {e.n} went on until {e.t1} although its last caller was cancelled at {last}")
        if not killed:
            w.check(abs(e.t1 - e.t0 - e.dur) < 1e-6, "wrong-time", lambda: f"{e.n}")
        if e.kind == "fail":
            w.stats["share_failed"] += 1
        w.stats["share_new_after_end"] += any(x.key == e.key and x.n < e.n for x in execs)
        for c in live:
            want = {"ok": ("ok", e.value), "none": ("ok", None), "fail": ("raised", e.value), "cancelled": ("cancelled", None)}.get(e.kind)
            w.check(c.outcome == want and abs(c.t1 - e.t1) < 1e-6, "wrong-outcome", lambda: f"call {c.n} ended with {c.outcome} at {c.t1}; its execution {e.n} with {want} at {e.t1}")
        for c in e.callers:
            if c.cancelled is not None:
                w.check(c.outcome[0] == "cancelled" and c.t1 <= c.cancelled + 1e-6, "not-cancellable", lambda: f"cancelled call {c.n} ended with {c.outcome}")
        w.state(("share", e.kind, min(len(e.callers), 4), len(live)))


def gen_timer(rng, tier):
    ops = []
    for _ in range(rng.randint(2, 15)):
        r = rng.random()
        dt = rng.choice([0, 0, 0.5, 1, 2, 3, 0.3])
        if r < 0.8:
            ops.append({"op": "set", "delay": rng.choice([0, 0.5, 1, 2, 2, 5, 10, 0.3]), "dt": dt})
        else:
            ops.append({"op": "cancel", "dt": dt})
    return {"cfg": {"inside": [rng.choice([None, None, None, 0, 1, 3, "cancel"]) for _ in range(4)], "stall": rng.random() < 0.2}, "ops": ops}


async def run_timer(w, plan):
    from zigpy.datastructures import ReschedulableTimeout

    loop = asyncio.get_running_loop()
    st = {"deadline": None, "fired": 0}

    def set_(delay):
        old = st["deadline"]
        st["deadline"] = w.now + delay
        if old is not None:
            w.stats["timer_moved_later" if st["deadline"] > old else "timer_moved_earlier"] += 1
        timer.reschedule(delay)

    def cancel():
        w.stats["timer_cancelled"] += st["deadline"] is not None
        st["deadline"] = None
        timer.cancel()

    def callback():
        d = st["deadline"]
        w.log("fired", st["fired"])
        w.check(d is not None, "fired-unset", lambda: f"the timeout fired at {w.now} although it was cancelled or had fired already")
        if d is not None:
            w.check(w.now >= d - 1e-9, "too-early", lambda: f"the timeout fired at {w.now}, its deadline is {d}")
            w.check(w.now <= d + 1e-6 + slack, "too-late", lambda: f"the timeout fired at {w.now}, its deadline was {d}")
        st["deadline"] = None
        n = st["fired"]
        st["fired"] += 1
        w.stats["timer_fired"] += 1
        ins = plan["cfg"]["inside"][n] if n < len(plan["cfg"]["inside"]) else None
        if ins == "cancel":
            cancel()
        elif ins is not None:
            w.stats["timer_from_callback"] += 1
            set_(ins)

    slack = 0.0
    if plan["cfg"]["stall"]:
        slack = 2.0
        loop.stall_p, loop.stall_max, loop.stalls_left = 0.1, 1.0, 2
    timer = ReschedulableTimeout(callback)
    for op in plan["ops"]:
        if op["dt"]:
            await asyncio.sleep(op["dt"])
        d = st["deadline"]
        w.check(d is None or w.now <= d + 1e-6 + slack, "missed", lambda: f"the timeout set for {d} has not fired at {w.now}")
        if op["op"] == "set":
            set_(op["delay"])
        else:
            cancel()
    for _ in range(6):
        await asyncio.sleep(12)
        d = st["deadline"]
        w.check(d is None or w.now <= d + 1e-6 + slack, "missed", lambda: f"the timeout set for {d} has not fired at {w.now}")
    w.state(("timer", st["fired"], len(plan["ops"])))


PARTS = [Part("retry", 1, gen_retry, run_retry), Part("share", 1, gen_share, run_share), Part("timer", 1, gen_timer, run_timer)]
