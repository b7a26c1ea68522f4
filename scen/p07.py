"""P07: device requests are serialized by priority and never starve others."""
import asyncio

from scen import common, reqs
from sim.runner import Part

PROPERTY = "P07"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 250000}
BATCH = 40
REAL = ["Device.request and its concurrency limit", "ControllerApplication.request/mrequest/broadcast and the radio concurrency limit",
        "PriorityDynamicBoundedSemaphore", "Cluster/ZDO request path"]
STUBS = ["radio and devices (struct-based codec)", "clock and scheduler"]
RULE = ("a run = 1..4 devices and 4..60 requests in bursts with random priorities, mixed with group and broadcast transmissions, "
        "under silent, slow and unreachable devices, failing transmissions, cancellation while waiting or in flight and caller "
        "deadlines; distinct = distinct sequence of arrive/submit/transmit/end events")
STATES = "per device (priorities waiting, in flight) and (waiting for the radio, transmitting) whenever time advances"
PROBES = ["queued", "cancel_waiting", "cancel_inflight", "timeouts", "radio_queued", "send_failed", "priority_overtook"]
ASSUMPTIONS = ["one request at a time per device", "requests of a device all go through Device.request"]


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    devs = [reqs.spec(rng, rng.choice([1, 1, 1, 2])) for _ in range(n)]
    count = rng.choice([4, 8, 16, 32, 60])
    prios = rng.choice([[0], [0, 1], [-1, 0, 1, 2], [None, 1], [-1, 0]])
    pc = rng.choice([0, 0.2, 0.5, 0.8])
    bursts = [rng.choice([0, 0, 0.5, 1, 2, 5, 8]) for _ in range(rng.choice([1, 2, 4]))]
    kinds = ["read", "view", "cmd", "nd", "lqi", "noreply", "write"]
    ops = []
    for i in range(count):
        k = rng.choice(kinds)
        op = {"op": "req", "id": i, "dev": rng.randrange(n), "at": rng.choice(bursts) + rng.choice([0, 0, 0.25]), "kind": k,
              "ep": 1, "priority": rng.choice(prios), "timeout": rng.choice([None, 1, 3])}
        if rng.random() < pc:
            op["cancel"] = rng.choice(["at", "at", "wait", "soon", "after_tx", "after_submit", "same_step"])
            op["cancel_after"] = rng.choice([0, 0.25, 0.5, 1, 2, 5])
            op["victim"] = rng.randint(0, 5)
        ops.append(op)
    for i in range(rng.choice([0, 0, 2, 6])):
        ops.append({"op": rng.choice(["group", "bcast"]), "id": 100 + i, "dev": 0, "at": rng.choice(bursts), "priority": rng.choice(prios)})
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.append({"op": rng.choice(["offline", "silent"]), "dev": rng.randrange(n), "at": rng.choice([0, 1, 3]), "len": rng.choice([1, 5, 30]),
                    "error": rng.random() < 0.5})
    return {"cfg": {**common.net(rng), "devs": devs, "maxc": rng.choice([1, 1, 2, 4, 8]), "stall_p": rng.choice([0, 0, 0, 0.02])}, "ops": ops}


class Monitor:
    """A queue with a capacity: at most ``cap`` started at a time, the best
    waiting one (priority, then arrival) starts whenever there is room."""

    def __init__(self, w, name, cap, stat, leaving):
        self.leaving = leaving  # whether a request is being cancelled at this instant
        self.w, self.name, self.cap, self.stat = w, name, cap, stat
        self.waiting = []  # (key, prio, seq) in arrival order
        self.running = {}
        self.seq = 0
        self.freed = 0  # arrivals with a higher sequence came after capacity was freed last
        self.decided = []  # arrival sequence numbers at the moments capacity became free

    def arrive(self, key, prio):
        self.seq += 1
        if len(self.running) >= self.cap or self.waiting:
            self.w.stats[self.stat] += 1
        self.waiting.append((key, prio, self.seq))

    def start(self, key):
        me = next((x for x in self.waiting if x[0] == key), None)
        if me is None:
            return
        self.waiting.remove(me)
        if len(self.running) >= self.cap:
            self.w.violate("too-many-in-flight", f"{self.name}: {key} starts while {sorted(map(str, self.running))} are in flight")
        # whoever waited when the place became free competes for it; a
        # request that arrived between that and this moment need not
        limit = self.decided.pop(0) if self.decided else self.seq
        best = [x for x in self.waiting if x[2] <= limit and (-x[1], x[2]) < (-me[1], me[2]) and not self.leaving(x[0])]
        # better ones may have their places already and only not have been resumed
        if best and len(best) >= self.cap - len(self.running):
            self.w.violate("wrong-order", f"{self.name}: {key} (priority {me[1]}, arrival {me[2]}) starts before "
                           f"{[(str(b[0]), b[1], b[2]) for b in best]}")
        if any(x[2] < me[2] for x in self.waiting):
            self.w.stats["priority_overtook"] += 1
        self.running[key] = me[1]

    def end(self, key):
        """True if it was in flight."""
        if key in self.running:
            del self.running[key]
            if self.waiting:
                self.decided.append(self.seq)
            return True
        self.waiting = [x for x in self.waiting if x[0] != key]
        return False

    def quiet(self):
        self.decided.clear()
        if self.waiting and len(self.running) < self.cap:
            self.w.violate("stalled", f"{self.name}: {[str(x[0]) for x in self.waiting]} wait although only "
                           f"{sorted(map(str, self.running))} are in flight (at most {self.cap})")
            self.waiting.clear()
        self.w.state(self.name, tuple(sorted(x[1] for x in self.waiting))[:6], len(self.running))


async def run(w, plan):
    from sim import radio as R
    import zigpy.config as conf

    cfg = plan["cfg"]
    w.loop.stall_p, w.loop.stall_max, w.loop.stalls_left = cfg["stall_p"], 3.0, 3
    radio = R.SimRadio(w, cfg)
    app = await R.start_app(w, radio, R.base_config(**{conf.CONF_MAX_CONCURRENT_REQUESTS: cfg["maxc"]}))
    nonces = reqs.Nonces(w, radio, 0)
    devs, zdevs, mons = [], [], []
    st = {}

    def leaving(i):
        return st[i]["cancel"] or (st[i]["deadline"] is not None and st[i]["deadline"] <= w.now)

    for i, s in enumerate(cfg["devs"]):
        d = radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), s, f"d{i}"))
        nonces.install(d)
        devs.append(d)
        zdevs.append(common.ready_device(app, d, R))
        mons.append(Monitor(w, d.name, 1, "queued", leaving))
    air = Monitor(w, "radio", cfg["maxc"], "radio_queued", leaving)
    by_task = {}

    def prio(op):
        return 0 if op.get("priority") is None else op["priority"]

    def on_submit(packet):
        op = by_task.get(asyncio.current_task())
        if op is None:
            return
        x = st[op["id"]]
        w.check(int(packet.priority) == prio(op), "priority-lost",
                lambda: f"{op['op']} {op['id']} of priority {prio(op)} is sent with priority {packet.priority}")
        if op["op"] == "req":
            mons[op["dev"]].start(op["id"])
        x["submitted"] = True
        w.log("submit", op["id"])
        air.arrive(op["id"], int(packet.priority))
        if op.get("cancel") == "after_submit":
            w.loop.call_later(op["cancel_after"], cancel, op)

    def on_tx(tx):
        op = by_task.get(asyncio.current_task())
        if op is None:
            return
        tx.tag = op.get("kind")
        st[op["id"]]["tx"] = tx
        air.start(op["id"])
        if op.get("cancel") == "after_tx":
            w.loop.call_later(op["cancel_after"], cancel, op)

    radio.on_submit.append(on_submit)
    radio.on_tx.append(on_tx)

    orig_send = radio.send

    async def send(packet):
        op = by_task.get(asyncio.current_task())
        try:
            await orig_send(packet)
        finally:
            if op is not None:
                air.end(op["id"])

    radio.send = send

    def cancel(op):
        x = st[op["id"]]
        if x["task"] is not None and not x["ended"]:
            x["cancel"] = True
            w.log("cancel", op["id"])
            w.stats["cancel_inflight" if x["submitted"] else "cancel_waiting"] += 1
            x["task"].cancel()

    async def req(op):
        x = st[op["id"]]
        if op["at"]:
            await asyncio.sleep(op["at"])
        by_task[asyncio.current_task()] = op
        c = op.get("cancel")
        if c == "at":
            w.loop.call_later(op["cancel_after"], cancel, op)
        elif c == "soon":
            w.loop.call_soon(cancel, op)
        m = mons[op["dev"]]
        m.arrive(op["id"], prio(op))
        w.log("arrive", op["id"], prio(op))
        x["arrived"] = True
        o = dict(op)
        if o["timeout"] is None:
            o.pop("timeout")
        try:
            if c == "wait":
                x["deadline"] = w.now + op["cancel_after"]
                async with asyncio.timeout(op["cancel_after"]):
                    await reqs.call(zdevs[op["dev"]], o, R)
            else:
                await reqs.call(zdevs[op["dev"]], o, R)
            x["out"] = "ok"
        except asyncio.CancelledError:
            x["out"] = "cancelled"
        except asyncio.TimeoutError:
            x["out"] = "timeout"
            w.stats["timeouts"] += 1
        except Exception as e:  # noqa: BLE001
            x["out"] = repr(e)
            w.stats["send_failed"] += 1
        x["ended"] = True
        m.end(op["id"])
        air.end(op["id"])
        w.log("end", op["id"], x["out"])
        by_task.pop(asyncio.current_task(), None)
        # cancel a request that may just have been woken up by this one
        if c == "same_step":
            vs = [v for v in plan["ops"] if v["op"] == "req" and v["dev"] == op["dev"] and st[v["id"]]["arrived"] and not st[v["id"]]["ended"]]
            if vs:
                cancel(vs[op["victim"] % len(vs)])

    async def other(op):
        if op["at"]:
            await asyncio.sleep(op["at"])
        k = op["op"]
        if k in ("group", "bcast"):
            by_task[asyncio.current_task()] = op
            kw = {} if op["priority"] is None else {"priority": op["priority"]}
            try:
                if k == "group":
                    await app.mrequest(0x0002, 0x0104, 6, 1, op["id"], b"\x01\x05\x02", **kw)
                else:
                    await app.broadcast(0, 0x0036, 0, 0, 0, 0, op["id"], b"\x05\x00\x00",
                                        R.t.BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR, **kw)
            except Exception:  # noqa: BLE001
                w.stats["send_failed"] += 1
            st[op["id"]]["ended"] = True
            air.end(op["id"])
            by_task.pop(asyncio.current_task(), None)
            return
        d = devs[op["dev"]]
        w.stats["fault_" + k] += 1
        if k == "offline":
            d.online, d.offline_error = False, op["error"]
            await asyncio.sleep(op["len"])
            d.online = True
        else:
            z, zz = d.zcl_hook, d.zdo_hook
            d.zcl_hook = lambda *a: True
            d.zdo_hook = lambda *a: True
            await asyncio.sleep(op["len"])
            d.zcl_hook, d.zdo_hook = z, zz

    def quiet():
        for m in mons:
            m.quiet()
        air.quiet()

    tasks = []
    for op in plan["ops"]:
        if op["op"] == "req" or op["op"] in ("group", "bcast"):
            st[op["id"]] = {"task": None, "arrived": False, "submitted": False, "ended": False, "out": None, "cancel": False, "deadline": None}
        tk = asyncio.create_task(req(op) if op["op"] == "req" else other(op))
        if op["op"] == "req":
            st[op["id"]]["task"] = tk
        tasks.append(tk)
    w.on_quiet = quiet
    limit = 60 + 45 * len(tasks)
    done, pending = await asyncio.wait(tasks, timeout=limit)
    w.on_quiet = None
    if pending:
        w.violate("never-ended", f"{[i for i, x in st.items() if not x['ended']]} did not end within {limit} s")
        return
    for tk in done:
        if not tk.cancelled():
            tk.result()
    # nothing is left behind: on an idle network every device takes requests at once
    radio.faults_on = False
    w.loop.stalls_left = 0
    await asyncio.sleep(15)
    for i, dev in enumerate(zdevs):
        devs[i].online = True
        t0, n0 = w.now, len(radio.txs)
        tk = asyncio.create_task(reqs.call(dev, {"kind": "view", "id": 250, "ep": 1}, R))
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        w.check(len(radio.txs) > n0, "idle-but-queued", lambda: f"{devs[i].name}: a request on an idle network is not sent at once")
        await asyncio.wait([tk], timeout=60)
        if not tk.done():
            w.violate("idle-but-stuck", f"{devs[i].name}: a request on an idle network did not end")
        else:
            tk.exception()
        del t0
    w.sample = {"devices": len(devs), "rates": cfg["rates"], "maxc": cfg["maxc"], "ops": plan["ops"][:5]}


PARTS = [Part("queue", 1, generate, run, max_steps=300_000)]
