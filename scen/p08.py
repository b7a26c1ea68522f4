"""P08: PriorityDynamicBoundedSemaphore / PriorityLock under cancellation,
priorities, bursts and run-time changes of the maximum."""
import asyncio

from sim.runner import Part

PROPERTY = "P08"
LEVEL = "exploration"
RUNS = {"quick": 150000, "thorough": 1200000}
BATCH = 200
REAL = ["zigpy.datastructures.PriorityDynamicBoundedSemaphore", "PriorityLock", "asyncio tasks, futures and cancellation"]
STUBS = ["event loop clock and scheduler (SimLoop)"]
RULE = ("a run = 2..14 client tasks acquiring with random priorities, hold times, cancellations and timeouts on a coarse "
        "time grid (many ties), plus changes of the maximum, over-releases and direct release calls; distinct = distinct "
        "sequence of arrive/grant/release/cancel/resize events")
STATES = "(maximum, holders, multiset of waiting priorities) at every quiescent instant"
PROBES = ["cancel_waiting", "cancel_woken", "cancel_holding", "resize_up_waiting", "resize_below_holders", "over_release"]


def generate(rng, tier):
    lock = rng.random() < 0.25
    n = rng.choice([2, 3, 4, 5, 6, 8, 10, 14])
    maxv = 1 if lock else rng.choice([0, 1, 1, 1, 2, 2, 3, 4])
    prios = rng.choice([[0], [0, 1], [-1, 0, 1], [0, 0, 5], [-2, -1, 0, 1, 2], [0, 0.5, 100]])
    grid = rng.choice([0.25, 0.5, 1.0])
    span = rng.choice([0, 1, 2, 4])
    pc = rng.choice([0, 0.2, 0.4, 0.7])
    ops = []
    for i in range(n):
        op = {"op": "client", "id": i, "at": rng.randint(0, span * 4) * grid / 4 * 4 if span else 0.0,
              "prio": rng.choice(prios), "hold": rng.randint(0, 3) * grid,
              "how": rng.choice(["acquire", "with", "with_prio", "acquire"])}
        if op["how"] == "with":
            op["prio"] = 0
        if rng.random() < pc:
            op["cancel"] = rng.choice(["at", "at", "on_release", "timeout", "self_soon"])
            op["cancel_after"] = rng.randint(0, 6) * grid / 2
            op["victim_rank"] = rng.randint(0, 3)
        if rng.random() < 0.15:
            op["error"] = True
        if rng.random() < 0.2:
            op["again"] = rng.randint(1, 2)
        ops.append(op)
    if not lock:
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            ops.append({"op": "resize", "at": rng.randint(0, 8) * grid, "to": rng.choice([0, 1, 1, 2, 3, 5, -1])})
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.append({"op": "cancel_waiter", "at": rng.randint(0, 8) * grid, "rank": rng.randint(0, 3)})
    if rng.random() < 0.15:
        ops.append({"op": "over_release", "at": rng.randint(0, 8) * grid})
    if rng.random() < 0.1 and lock:
        ops.append({"op": "lock_resize", "at": rng.randint(0, 8) * grid})
    return {"cfg": {"lock": lock, "max": maxv, "stall_p": rng.choice([0, 0, 0.2]), "n": n}, "ops": ops}


class Client:
    __slots__ = ("id", "prio", "arr_seq", "arr_t", "task", "cancel_req", "state")


async def run(w, plan):
    from zigpy.datastructures import PriorityDynamicBoundedSemaphore, PriorityLock

    cfg = plan["cfg"]
    w.loop.stall_p, w.loop.stall_max, w.loop.stalls_left = cfg["stall_p"], 3.0, 3
    sem = PriorityLock() if cfg["lock"] else PriorityDynamicBoundedSemaphore(cfg["max"])
    m = {"max": 1 if cfg["lock"] else cfg["max"], "holders": 0, "lowered": -1.0}
    waiting = []  # clients in arrival order
    seq = [0]
    tasks = []
    rel_victims = []

    def arrive(cl, prio):
        seq[0] += 1
        cl.prio, cl.arr_seq, cl.arr_t, cl.state = prio, seq[0], w.now, "waiting"
        waiting.append(cl)
        w.log("arrive", cl.id, prio)

    def granted(cl):
        waiting.remove(cl)
        m["holders"] += 1
        cl.state = "holding"
        w.log("grant", cl.id)
        w.check(m["holders"] <= m["max"] or m["lowered"] == w.now, "too-many-holders",
                lambda: f"client {cl.id} was granted although {m['holders'] - 1} hold and the maximum is {m['max']}")
        # a share may have been handed over already to a task that has not run yet
        free = m["max"] - m["holders"]
        live = sorted((o for o in waiting if not o.cancel_req), key=lambda o: (-o.prio, o.arr_seq))
        for rank, o in enumerate(live):
            if rank < free or m["lowered"] == w.now:
                continue
            if o.arr_seq < cl.arr_seq and o.prio >= cl.prio:
                w.violate("overtaken", f"client {cl.id} (priority {cl.prio}) was granted while client {o.id} "
                          f"(priority {o.prio}) has been waiting longer")
            elif o.prio > cl.prio and o.arr_t < w.now:
                w.violate("priority-ignored", f"client {cl.id} (priority {cl.prio}) was granted while client {o.id} "
                          f"(priority {o.prio}) was already waiting")

    def released(cl):
        m["holders"] -= 1
        cl.state = "done"
        w.log("release", cl.id)
        if rel_victims:
            # cancel, in the same instant as a release, the waiter just chosen
            rank = rel_victims.pop()
            cand = sorted((o for o in waiting if not o.cancel_req), key=lambda o: (-o.prio, o.arr_seq))
            if cand:
                v = cand[min(rank, len(cand) - 1)]
                v.cancel_req = True
                w.stats["fault_cancel"] += 1
                w.stats["cancel_woken"] += 1
                w.log("cancel", v.id, "on_release")
                v.task.cancel()

    async def hold(cl, op):
        if op["hold"]:
            await asyncio.sleep(op["hold"])
        elif w.dec.chance("hold.yield", 0.5):
            await asyncio.sleep(0)
        if op.get("error"):
            raise LookupError("client error")

    async def once(cl, op):
        prio = op["prio"]
        arrive(cl, prio)
        try:
            if op["how"] == "acquire":
                r = await sem.acquire(prio) if prio or w.dec.chance("explicit", 0.5) else await sem.acquire()
                granted(cl)
                w.check(r is True, "acquire-result", lambda: f"acquire returned {r!r}")
                try:
                    await hold(cl, op)
                finally:
                    sem.release()
                    released(cl)
            else:
                cm = sem if op["how"] == "with" else sem(priority=prio)
                try:
                    async with cm:
                        granted(cl)
                        try:
                            await hold(cl, op)
                        finally:
                            pass
                finally:
                    if cl.state == "holding":
                        released(cl)
        except asyncio.CancelledError:
            if cl in waiting:
                waiting.remove(cl)
                w.log("cancelled", cl.id)
            w.check(cl.cancel_req, "spurious-cancel", lambda: f"client {cl.id} got a cancellation nobody asked for")
            raise
        except LookupError:
            pass

    async def client(op):
        cl = Client()
        cl.id, cl.cancel_req, cl.state = op["id"], False, "new"
        cl.task = asyncio.current_task()
        if op["at"]:
            await asyncio.sleep(op["at"])
        kind = op.get("cancel")

        def do_cancel():
            if not cl.cancel_req and not cl.task.done():
                cl.cancel_req = True
                w.stats["fault_cancel"] += 1
                w.stats["cancel_holding" if cl.state == "holding" else "cancel_waiting"] += 1
                w.log("cancel", cl.id)
                cl.task.cancel()

        if kind == "at" or kind == "timeout":
            w.loop.call_later(op["cancel_after"], do_cancel)
        elif kind == "on_release":
            rel_victims.append(op["victim_rank"])
        elif kind == "self_soon":
            w.loop.call_soon(do_cancel)
        for _ in range(1 + op.get("again", 0)):
            await once(cl, op)

    async def control(op):
        if op["at"]:
            await asyncio.sleep(op["at"])
        if op["op"] == "resize":
            w.log("resize", op["to"])
            try:
                if op["to"] > m["max"] and waiting:
                    w.stats["resize_up_waiting"] += 1
                if 0 <= op["to"] < m["holders"]:
                    w.stats["resize_below_holders"] += 1
                old = m["max"]
                if op["to"] >= 0:
                    if op["to"] < old:
                        m["lowered"] = w.now
                    m["max"] = op["to"]
                sem.max_value = op["to"]
                if op["to"] < 0:
                    w.violate("negative-maximum", "a negative maximum was accepted")
            except ValueError:
                if op["to"] >= 0:
                    m["max"] = old
                    w.violate("resize-refused", f"maximum {op['to']} was refused")
            w.check(sem.max_value == m["max"], "max-value", lambda: f"max_value {sem.max_value} instead of {m['max']}")
        elif op["op"] == "lock_resize":
            try:
                sem.max_value = 3
                w.violate("lock-resized", "the maximum of a lock could be changed")
            except ValueError:
                pass
        elif op["op"] == "over_release":
            if m["holders"] == 0 and not waiting and sem.value == sem.max_value:
                w.stats["over_release"] += 1
                try:
                    sem.release()
                    w.violate("over-release", "releasing an unheld semaphore succeeded")
                except ValueError:
                    pass
        elif op["op"] == "cancel_waiter":
            cand = sorted((o for o in waiting if not o.cancel_req), key=lambda o: (-o.prio, o.arr_seq))
            if cand:
                v = cand[min(op["rank"], len(cand) - 1)]
                v.cancel_req = True
                w.stats["fault_cancel"] += 1
                w.stats["cancel_waiting"] += 1
                w.log("cancel", v.id)
                v.task.cancel()

    def quiet():
        live = [o for o in waiting]
        free = m["max"] - m["holders"]
        w.state(m["max"], m["holders"], tuple(sorted(o.prio for o in live)))
        if free > 0 and live:
            w.violate("lost-wakeup", f"{free} of {m['max']} free, yet clients {[o.id for o in live]} keep waiting")
            w.on_quiet = None
            return
        w.check(sem.num_waiting == len(live), "waiter-count",
                lambda: f"num_waiting is {sem.num_waiting}, {len(live)} tasks are waiting")
        w.check(sem.value == free, "value", lambda: f"value is {sem.value}, {free} free")
        w.check(sem.locked() == (free <= 0), "locked", lambda: f"locked() is {sem.locked()} with {free} free")
        if w.violations:
            w.on_quiet = None

    w.on_quiet = quiet
    for op in plan["ops"]:
        if op["op"] == "client":
            tasks.append(asyncio.create_task(client(op)))
        else:
            tasks.append(asyncio.create_task(control(op)))
    # give everybody room in the end: a maximum of zero legitimately blocks
    async def finisher():
        await asyncio.sleep(60)
        if m["max"] == 0:
            m["max"] = 1
            sem.max_value = 1

    tasks.append(asyncio.create_task(finisher()))
    done, pending = await asyncio.wait(tasks, timeout=400)
    for t in done:
        if not t.cancelled() and t.exception() is not None:
            e = t.exception()
            if isinstance(e, (ValueError, RuntimeError, AssertionError, IndexError, KeyError, AttributeError, TypeError,
                              asyncio.InvalidStateError)):
                import traceback
                w.violate("unexpected-exception", "".join(traceback.format_exception(e)[-6:]))
            else:
                w.violate("unexpected-exception", repr(e))
    if pending and not w.violations:
        w.violate("never-granted", f"{len(pending)} tasks still blocked with {m['holders']} holders of {m['max']}")
    if not w.violations:
        quiet()
        w.check(sem.value == sem.max_value == m["max"] and sem.num_waiting == 0, "leak",
                lambda: f"everybody is done, value {sem.value} of {sem.max_value}, waiting {sem.num_waiting}")
        # still usable
        try:
            await asyncio.wait_for(sem.acquire(), 5)
            sem.release()
        except asyncio.TimeoutError:
            w.violate("unusable", "a fresh acquire blocks although nobody holds the semaphore")
    w.sample = {"cfg": cfg, "ops": plan["ops"][:6], "events": w.event_seq}


PARTS = [Part("sem", 1, generate, run, max_steps=60_000)]
