"""P06: a request ends exactly once, with its own answer or an error."""
import asyncio

from scen import common, reqs
from sim import wire as W
from sim.runner import Part

PROPERTY = "P06"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 250000}
BATCH = 40
REAL = ["Device.request/packet_received", "Cluster/ZDO/Endpoint request path", "Requests/Request", "ControllerApplication.request", "asyncio.timeout"]
STUBS = ["radio and devices (struct-based codec)", "clock and scheduler"]
RULE = ("a run = 1..3 devices and 3..40 requests of 15 kinds (reads, writes, reporting, discovery, commands, ZDO) whose answers "
        "carry a fresh nonce, under loss, duplication, delay, early and late answers, delivery errors, radio timeouts, malformed "
        "answers, caller cancellation and deadlines, with unrelated traffic carrying the same sequence number; "
        "distinct = distinct sequence of radio and request events")
STATES = "per device (requests waiting, in flight, answered before confirmation) whenever time advances"
PROBES = ["ok", "timeout", "delivery_error", "cancelled", "parse_error", "noise", "late_answers", "dup_answers", "radio_timeout"]
ASSUMPTIONS = ["answers arrive before the device's 8-bit sequence numbers wrap around",
               "a device does not send an unsolicited cluster command with the sequence number of a pending cluster command of the same cluster"]


def generate(rng, tier):
    n = rng.choice([1, 1, 2, 3])
    devs = [reqs.spec(rng, rng.choice([1, 1, 2])) for _ in range(n)]
    count = rng.choice([3, 6, 12, 24, 40])
    span = rng.choice([0, 2, 10, 40])
    pn = rng.choice([0, 0.3, 0.8])
    pc = rng.choice([0, 0, 0.2, 0.5])
    kinds = list(reqs.KINDS) if rng.random() < 0.6 else rng.sample(sorted(reqs.KINDS), 3)
    ops = []
    for i in range(count):
        k = rng.choice(kinds)
        op = {"op": "req", "id": i, "dev": rng.randrange(n), "at": round(rng.uniform(0, span) * 4) / 4 if span else 0,
              "kind": k, "ep": rng.choice([1, 1, 2])}
        if rng.random() < 0.3:
            op["timeout"] = rng.choice([0.25, 1, 2.5, 10, 20])
        if rng.random() < 0.3:
            op["priority"] = rng.choice([-1, 0, 1, 2])
        op["ieee"] = rng.random() < 0.15
        if rng.random() < 0.2:
            op["ack"] = rng.random() < 0.5
        if rng.random() < pc:
            op["cancel"] = rng.choice(["at", "at", "wait", "after_tx", "on_answer", "after_sent"])
            op["cancel_after"] = rng.choice([0, 0, 0.25, 0.5, 1, 3, 6])
        if rng.random() < pn and k != "reply":
            op["noise"] = [[rng.choice(reqs.NOISE), rng.choice([0, 0, 0.1, 0.25, 0.5, 1, 4])] for _ in range(rng.randint(1, 4))]
        ops.append(op)
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.append({"op": "offline", "dev": rng.randrange(n), "at": rng.choice([0, 1, 3, 10]), "len": rng.choice([1, 5, 30]),
                    "error": rng.random() < 0.5})
    return {"cfg": {**common.net(rng), "devs": devs, "malformed": rng.choice([0, 0, 0.15]), "tsn0": rng.choice([0, 0, 245, 250]),
                    "maxc": rng.choice([1, 2, 8]), "stall_p": rng.choice([0, 0, 0, 0.02])}, "ops": ops}


class Op:
    def __init__(self, op):
        self.op, self.tx, self.end, self.out, self.res, self.task = op, [], None, None, None, None
        self.cancel_at = None
        self.deadline = None
        self.answers = []


async def run(w, plan):
    from sim import radio as R
    import zigpy.config as conf
    import zigpy.exceptions as zexc

    cfg = plan["cfg"]
    w.loop.stall_p, w.loop.stall_max, w.loop.stalls_left = cfg["stall_p"], 3.0, 3
    slack = 10.0 if cfg["stall_p"] else 1e-6
    radio = R.SimRadio(w, cfg)
    app = await R.start_app(w, radio, R.base_config(**{conf.CONF_MAX_CONCURRENT_REQUESTS: cfg["maxc"]}))
    nonces = reqs.Nonces(w, radio, cfg["malformed"])
    devs, zdevs = [], []
    for i, s in enumerate(cfg["devs"]):
        d = radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), s, f"d{i}"))
        nonces.install(d)
        devs.append(d)
        dev = common.ready_device(app, d, R)
        zdevs.append(dev)
        for _ in range(cfg["tsn0"]):
            dev.get_sequence()
    idle = radio.add(R.SimDevice(w, common.ieee_of(9), common.nwk_of(9), cfg["devs"][0], "idle"))
    common.ready_device(app, idle, R)
    by_task = {}
    all_ops = []
    base_tasks = len(asyncio.all_tasks())

    def on_tx(tx):
        o = by_task.get(asyncio.current_task())
        if o is None:
            return
        o.tx.append(tx)
        tx.tag = o.op["kind"]
        dev = devs[o.op["dev"]]
        for kind, d in o.op.get("noise", ()):
            def go(kind=kind):
                if reqs.noise(radio, dev, idle, tx, kind):
                    w.stats["noise"] += 1
                    w.stats["fault_noise_" + kind] += 1
            w.loop.call_later(d, go)
        if o.op.get("cancel") == "after_tx":
            w.loop.call_later(o.op["cancel_after"], cancel, o)

    radio.on_tx.append(on_tx)

    def cancel(o):
        if o.end is None and o.cancel_at is None:
            o.cancel_at = w.now
            w.log("cancel", o.op["id"])
            o.task.cancel()

    owner = {}

    def on_rx(rx):
        tx = rx.req
        if tx is None:
            return
        o = next((x for x in all_ops if tx in x.tx), None)
        if o is None:
            return
        key = (tx.n, rx.data)
        if key not in nonces.expect:
            return
        o.answers.append((rx.t, nonces.expect[key]))
        if o.end is not None:
            w.stats["late_answers"] += 1
        elif len(o.answers) > 1:
            w.stats["dup_answers"] += 1
        if o.op.get("cancel") == "on_answer" and len(o.answers) == 1:
            w.loop.call_later(o.op["cancel_after"], cancel, o)

    radio.on_rx.append(on_rx)
    del owner

    async def req(o):
        op = o.op
        if op["at"]:
            await asyncio.sleep(op["at"])
        by_task[asyncio.current_task()] = o
        if op.get("cancel") == "at":
            w.loop.call_later(op["cancel_after"], cancel, o)
        w.log("start", op["id"], op["kind"])
        dev = zdevs[op["dev"]]
        try:
            if op.get("cancel") == "wait":
                o.deadline = w.now + op["cancel_after"]
                async with asyncio.timeout(op["cancel_after"]):
                    o.res = await reqs.call(dev, op, R)
            else:
                o.res = await reqs.call(dev, op, R)
            o.out = "ok"
        except asyncio.CancelledError:
            o.out = "cancelled"
        except Exception as e:  # noqa: BLE001
            o.out, o.res = "error", e
        by_task.pop(asyncio.current_task(), None)
        w.check(o.end is None, "ended-twice", f"request {op['id']} ended twice")
        o.end = w.now
        w.log("end", op["id"], o.out, type(o.res).__name__ if o.out == "error" else "")
        if op.get("cancel") == "after_sent":
            pass
        verify(o)

    def verify(o):
        op = o.op
        k = op["kind"]
        d = devs[op["dev"]]
        name = f"request {op['id']} ({k} to {d.name})"
        if not w.check(len(o.tx) <= 1, "sent-twice", lambda: f"{name} was transmitted {len(o.tx)} times"):
            return
        tx = o.tx[0] if o.tx else None
        oneway = k in reqs.ONEWAY
        T = 28.0 if d.logical == 2 else op.get("timeout", 5.0)
        first = o.answers[0] if o.answers else None
        sent = tx is not None and tx.outcome == "sent"
        if o.out == "ok":
            w.stats["ok"] += 1
            if not w.check(tx is not None, "completed-without-transmission", name):
                return
            if not w.check(sent, "completed-despite-error", lambda: f"{name}: transmission {tx.outcome}"):
                return
            if oneway:
                w.check(o.end <= tx.t1 + slack, "one-way-waited", lambda: f"{name} ended {o.end - tx.t1} s after it was sent")
                return
            if not w.check(first is not None, "completed-by-unrelated-traffic",
                           lambda: f"{name} returned {o.res!r} but the device's answer was never delivered"):
                return
            if not w.check(first[1] is not None, "completed-by-malformed", lambda: f"{name} returned {o.res!r}"):
                return
            try:
                got = reqs.result_value(k, o.res)
            except Exception as e:  # noqa: BLE001
                got = repr(e)
            w.check(got == first[1], "wrong-answer", lambda: f"{name} returned {got!r} ({o.res!r}), the device answered {first[1]!r}")
            due = max(first[0], tx.t1)
            w.check(abs(o.end - due) <= 1e-6, "late-completion", lambda: f"{name} ended at {o.end}, its answer came at {due}")
            return
        if o.out == "cancelled":
            w.stats["cancelled"] += 1
            w.check(o.cancel_at is not None, "cancelled-by-itself", lambda: f"{name} was cancelled by nobody")
            if o.cancel_at is not None:
                w.check(o.end <= o.cancel_at + 1e-6, "slow-cancel", lambda: f"{name} ended {o.end - o.cancel_at} s after its cancellation")
            return
        e = o.res
        if tx is not None and tx.exc is not None:
            w.stats["radio_timeout" if isinstance(e, asyncio.TimeoutError) else "delivery_error"] += 1
            if o.deadline is None or o.end < o.deadline:
                w.check(e is tx.exc, "wrong-error", lambda: f"{name}: the radio failed with {tx.exc!r}, the request with {e!r}")
            return
        if isinstance(e, asyncio.TimeoutError):
            w.stats["timeout"] += 1
            if o.deadline is not None and o.end >= o.deadline - 1e-6:
                return
            if not w.check(sent and not oneway, "timeout-before-sending", lambda: f"{name} timed out"):
                return
            due = tx.t1 + T
            w.check(o.end >= due - 1e-6, "early-timeout", lambda: f"{name} timed out {o.end - tx.t1} s after it was sent, not {T}")
            w.check(o.end <= due + slack, "late-timeout", lambda: f"{name} timed out {o.end - tx.t1} s after it was sent, not {T}")
            w.check(first is None or first[0] >= due - 1e-6 or first[0] >= o.end - 1e-6, "timeout-despite-answer",
                    lambda: f"{name} timed out at {o.end} although its answer arrived at {first[0]}")
            return
        if isinstance(e, zexc.ParsingError):
            w.stats["parse_error"] += 1
            w.check(sent and first is not None and first[1] is None, "parse-error-without-malformed-answer",
                    lambda: f"{name} failed with {e!r} but its answer was {first}")
            return
        from sim.core import frames_of
        w.violate("unexpected-error", f"{name} failed with {frames_of(e)[1]}")

    def quiet():
        for i in range(len(devs)):
            pend = [o for o in all_ops if o.op["dev"] == i and o.end is None and o.task in by_task]
            w.state(i, min(3, sum(1 for o in pend if not o.tx)), min(2, sum(1 for o in pend if o.tx)),
                    sum(1 for o in pend if o.answers and o.tx and o.tx[0].t1 is None))

    w.on_quiet = quiet

    async def other(op):
        await asyncio.sleep(op["at"])
        d = devs[op["dev"]]
        d.online, d.offline_error = False, op["error"]
        w.stats["fault_offline"] += 1
        await asyncio.sleep(op["len"])
        d.online = True

    tasks = []
    for op in plan["ops"]:
        if op["op"] == "req":
            o = Op(op)
            all_ops.append(o)
            o.task = asyncio.create_task(req(o))
            tasks.append(o.task)
        else:
            tasks.append(asyncio.create_task(other(op)))
    for o in all_ops:
        if o.op.get("cancel") == "after_sent":
            async def watcher(o=o):
                while o.end is None and not (o.tx and o.tx[0].t1 is not None):
                    await asyncio.sleep(0.25)
                await asyncio.sleep(o.op["cancel_after"])
                cancel(o)
            tasks.append(asyncio.create_task(watcher()))
    # every request of one device may take its whole timeout one after another
    limit = 60 + sum(45 for o in all_ops)
    done, pending = await asyncio.wait(tasks, timeout=limit)
    for o in all_ops:
        w.check(o.end is not None or o.task.cancelled(), "never-ended",
                lambda: f"request {o.op['id']} ({o.op['kind']}) did not end within {limit} s")
    for t_ in done:
        if not t_.cancelled():
            t_.result()
    if pending:
        return
    w.on_quiet = None
    # late answers must not disturb anything
    radio.faults_on = False
    w.loop.stalls_left = 0
    for d in devs:
        d.online = True
    await asyncio.sleep(20)
    for dev in zdevs:
        left = len(getattr(dev, "_pending", ()))
        w.check(left == 0, "left-pending", lambda: f"{dev.nwk}: {left} requests are still registered")
    n = len(asyncio.all_tasks())
    w.check(n <= base_tasks, "left-tasks", lambda: f"{n} tasks instead of {base_tasks}: {[str(t_) for t_ in asyncio.all_tasks()][:4]}")
    # a fresh request works
    for i, dev in enumerate(zdevs):
        o = Op({"op": "req", "id": 200 + i, "dev": i, "at": 0, "kind": ["view", "nd", "read"][w.dec.pick("probe", 3)], "ep": 1})
        all_ops.append(o)
        o.task = asyncio.create_task(req(o))
        await asyncio.wait([o.task], timeout=40)
        if o.end is None:
            w.violate("probe-stuck", f"{devs[i].name}: a request on an idle, healthy network did not end")
        elif not o.task.cancelled():
            o.task.result()
            w.check(o.out == "ok", "probe-failed", lambda: f"{devs[i].name}: a request on an idle, healthy network failed with {o.res!r}")
    w.sample = {"devices": len(devs), "rates": cfg["rates"], "ops": plan["ops"][:5]}


PARTS = [Part("requests", 1, generate, run, max_steps=300_000)]
