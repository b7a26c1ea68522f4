"""P11: response listeners see each matching message once, while registered."""
import asyncio

from scen import common
from sim import wire as W
from sim.runner import Part

PROPERTY = "P11"
LEVEL = "exploration"
RUNS = {"quick": 10000, "thorough": 400000}
BATCH = 80
REAL = ["ControllerApplication.wait_for_response / callback_for_response", "zigpy.listeners", "dispatch in Device.packet_received", "command schema matching"]
STUBS = ["radio (messages handed over directly)", "clock and scheduler"]
RULE = ("a run = 3..14 callbacks and futures for one of two devices or any device, with function, schema, several and raising matchers, whose "
        "callbacks raise, return coroutines, register, unregister and cancel listeners while being called; 10..80 operations (register, "
        "unregister, cancel, await with timeout, messages of three kinds, duplicates, undecodable messages); distinct = distinct sequence "
        "of registrations and calls")
STATES = "(listeners registered, unresolved futures, callback actions taken) at each message"
PROBES = ["messages", "calls", "futures", "passed_on", "reentrant_unreg", "reentrant_reg", "raised", "matcher_raised", "dup", "bad", "waited"]
ASSUMPTIONS = ["any-device listeners come before those of the device; within each, registration order", "a message that resolves a future "
               "is not passed to later listeners", "a listener unregistered during the dispatch of a message may or may not get it"]


def matcher(rng, deep=True):
    t = rng.choice(["all", "all", "cmd", "rep", "zdo", "none", "schema", "schema", "even", "raise"] + (["multi"] if deep else []))
    m = {"t": t, "k": rng.randrange(3), "full": rng.random() < 0.3}
    if t == "multi":
        m["of"] = [matcher(rng, False) for _ in range(rng.choice([0, 2, 3]))]
    return m


def generate(rng, tier):
    n = rng.choice([3, 5, 8, 14])
    ls = []
    for i in range(n):
        kind = rng.choice(["cb", "cb", "fut"])
        acts = []
        if kind == "cb" and rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                acts.append(rng.choice([["unreg", i], ["unreg", rng.randrange(n)], ["reg", rng.randrange(n)], ["cancel", rng.randrange(n)]]))
        ls.append({"src": rng.choice(["any", 0, 0, 1]), "kind": kind, "match": matcher(rng), "acts": acts,
                   "ret": rng.choice(["none", "none", "raise", "async", "async_raise", "true"]), "share": rng.choice([None, None, 0])})
    ops = [{"op": "reg", "l": i, "dt": 0} for i in range(n) if rng.random() < 0.6]
    for _ in range(rng.choice([10, 25, 80])):
        k = rng.choice(["msg"] * 8 + ["reg"] * 3 + ["unreg"] * 2 + ["cancel", "dup", "bad", "wait"])
        op = {"op": k, "dt": rng.choice([0, 0, 0.25, 1])}
        if k in ("msg",):
            op.update(dev=rng.randrange(2), kind=rng.choice(["cmd", "cmd", "rep", "zdo"]), k=rng.randrange(3))
        elif k == "bad":
            op.update(dev=rng.randrange(2), kind=rng.choice(["cmd", "rep", "zdo"]))
        elif k in ("reg", "unreg", "cancel", "wait"):
            op["l"] = rng.randrange(n)
            op["timeout"] = rng.choice([0.5, 2])
        ops.append(op)
    return {"cfg": {"ls": ls}, "ops": ops}


async def run(w, plan):
    from sim import radio as R
    import zigpy.listeners as ZL
    import zigpy.zdo.types as zdo_t
    from zigpy.zcl import foundation
    from zigpy.zcl.clusters.general import OnOff

    radio = R.SimRadio(w, {})
    app = await R.start_app(w, radio)
    spec = {"logical": 1, "eps": {"1": {"ins": [0, 6], "outs": [6]}}}
    sims = [radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), spec, f"d{i}")) for i in range(2)]
    devs = [common.ready_device(app, d, R) for d in sims]
    Schema = OnOff.ServerCommandDefs.on_with_timed_off.schema
    plans = plan["cfg"]["ls"]
    regs = {"any": [], 0: [], 1: []}  # the model: registrations in order
    byid = {}
    seq = []  # what happened during the current dispatch
    st = {"n": 0, "dispatch": False}
    handled = []
    cms = []

    class CL:
        def __init__(self, d):
            self.d = d

        def cluster_command(self, tsn, cmd, args):
            handled.append((self.d, "cmd"))

        def attribute_updated(self, attrid, value, *_):
            handled.append((self.d, "rep"))

        def permit_duration(self, dur):
            handled.append((self.d, "zdo"))

    for i, dev in enumerate(devs):
        ep = dev.endpoints[1]
        for c in (ep.in_clusters[6], dev.zdo):
            c.add_listener(CL(i))

    class Reg:
        def __init__(self, lid):
            self.lid, self.p = lid, plans[lid]
            self.live = True
            self.future = None
            self.result = None  # message the model says resolved it
            self.cm = None

    def value(hdr, cmd):
        """(kind, k, nonce) of a decoded message"""
        if isinstance(hdr, zdo_t.ZDOHeader):
            return ("zdo", int(cmd[1]), int(cmd[0]) | 0)
        if hdr.frame_control.is_general:
            v = int(cmd.attribute_reports[0].value.value)
            return ("rep", v % 16, v // 16)
        return ("cmd", int(cmd.on_time), int(cmd.off_wait_time))

    def want(m, msg):
        """The model's matching of message (kind, k, nonce)."""
        t = m["t"]
        if t == "all":
            return True
        if t in ("cmd", "rep", "zdo"):
            return msg[0] == t
        if t == "even":
            return msg[2] % 2 == 0
        if t == "schema":
            return msg[0] == "cmd" and msg[1] == m["k"] and not m["full"]
        if t == "multi":
            return any(want(x, msg) for x in m["of"])
        return False

    def build(m):
        t = m["t"]
        if t == "schema":
            # off_wait_time 60000 is used by no message
            return Schema(on_time=m["k"], off_wait_time=60000) if m["full"] else Schema(on_time=m["k"])
        if t == "raise":
            def f(hdr, cmd):
                w.stats["matcher_raised"] += 1
                raise RuntimeError("matcher")
            return f
        return lambda hdr, cmd: want(m, value(hdr, cmd))


    def register(lid):
        p = plans[lid]
        r = Reg(lid)
        ms = [build(x) for x in p["match"]["of"]] if p["match"]["t"] == "multi" else [build(p["match"])]
        src = ZL.ANY_DEVICE if p["src"] == "any" else devs[p["src"]]
        if p["kind"] == "fut":
            r.cm = app.wait_for_response(src, ms)
            r.future = r.cm.__enter__()
        else:
            r.cm = app.callback_for_response(src, ms, lambda hdr, cmd: callback(r, hdr, cmd))
            r.cm.__enter__()
        cms.append(r.cm)
        regs[p["src"]].append(r)
        byid.setdefault(lid, []).append(r)
        w.log("reg", lid)
        return r

    def unregister(r):
        r.live = False
        regs[r.p["src"]].remove(r)
        r.cm.__exit__(None, None, None)
        w.log("unreg", r.lid)

    def live(lid):
        return next((r for r in reversed(byid.get(lid, ())) if r.live), None)

    def act(a):
        if a[0] == "reg":
            if sum(len(x) for x in regs.values()) < 20:
                w.stats["reentrant_reg"] += st["dispatch"]
                register(a[1])
        elif a[0] == "unreg":
            r = live(a[1])
            if r is not None:
                w.stats["reentrant_unreg"] += st["dispatch"]
                unregister(r)
                seq.append(("unreg", r))
        elif a[0] == "cancel":
            r = live(a[1])
            if r is not None and r.future is not None and not r.future.done():
                r.future.cancel()
                seq.append(("cancel", r))

    def callback(r, hdr, cmd):
        w.stats["calls"] += 1
        w.log("call", r.lid)
        seq.append(("call", r, value(hdr, cmd)))
        for a in r.p["acts"]:
            act(a)
        seq.append(("end", r))
        ret = r.p["ret"]
        if ret == "raise":
            w.stats["raised"] += 1
            raise RuntimeError("callback")
        if ret in ("async", "async_raise"):
            async def co():
                await asyncio.sleep(0.25)
                if ret == "async_raise":
                    raise RuntimeError("async callback")
            return co()
        return True if ret == "true" else None

    def frame(op):
        """(src_ep, dst_ep, profile, cluster, data) and message"""
        st["n"] += 1
        n = st["n"]
        if op["kind"] == "cmd":
            d = W.Zcl(True, False, n & 0xFF, 0x42, b"\0" + W.u16(op.get("k", 0)) + W.u16(n)).bytes()
            return (1, 1, 0x0104, 6, d), ("cmd", op.get("k", 0), n)
        if op["kind"] == "rep":
            v = n * 16 + op.get("k", 0)
            d = W.Zcl(False, True, n & 0xFF, W.REPORT, W.u16(0x4001) + b"\x21" + W.u16(v)).bytes()
            return (1, 1, 0x0104, 6, d), ("rep", op.get("k", 0), n)
        d = W.u8(n & 0xFF) + bytes([n & 0xFF, op.get("k", 0)])
        return (0, 0, 0, W.MGMT_PERMIT_REQ, d), ("zdo", op.get("k", 0), n & 0xFF)

    last = []

    def message(op):
        fr, msg = frame(op)
        deliver(op["dev"], fr, msg)
        last.append((w.now, op["dev"], fr))

    def deliver(i, fr, msg):
        """msg None: must not be processed"""
        snap = list(regs["any"]) + list(regs[i])
        state = {r: (r.future is not None and r.future.done()) for r in snap}
        unres = sum(1 for r in snap if r.future is not None and not r.future.done())
        seq.clear()
        n0 = len(handled)
        st["dispatch"] = True
        radio.deliver(sims[i], sims[i].nwk, fr[0], fr[1], fr[2], fr[3], fr[4])
        st["dispatch"] = False
        w.stats["messages"] += 1
        w.state(min(len(snap), 8), min(unres, 4), min(3, sum(1 for s in seq if s[0] in ("unreg", "cancel"))))
        what = f"message {msg or fr[4].hex()} of d{i}"
        new = handled[n0:]
        if msg is None:
            w.check(not any(s[0] == "call" for s in seq) and not new, "processed-undecodable", lambda: f"{what}: {seq} {new}")
            return
        w.check(new == [(i, msg[0])], "handling-disturbed", lambda: f"{what}: normal handling saw {new}")
        # walk the model along what really happened
        gone = set()
        ev = list(seq)
        pos = 0
        resolved = None
        for r in snap:
            match = want(r.p["match"], msg)
            nxt = ev[pos] if pos < len(ev) else None
            if r.future is not None:
                if not match or state[r] or r in gone and r.future.cancelled():
                    continue
                if r.future.done() and not r.future.cancelled():
                    got = value(*r.future.result())
                    w.check(got == msg, "future-wrong-message", lambda: f"{what}: future {r.lid} holds {got}")
                    w.stats["futures"] += 1
                    w.log("resolved", r.lid)
                    resolved = r
                    break
                if r in gone:
                    continue
                w.violate("missed", f"{what} did not resolve future {r.lid}")
                continue
            called = nxt is not None and nxt[0] == "call" and nxt[1] is r
            if not match:
                w.check(not called, "wrong-message", lambda: f"{what} was passed to callback {r.lid} which does not match it")
                if called:
                    return
                continue
            if not called:
                if r not in gone:
                    w.violate("missed", f"{what} was not passed to callback {r.lid}; calls: {[(e[0], e[1].lid) for e in ev]}")
                continue
            w.check(nxt[2] == msg, "wrong-content", lambda: f"{what}: callback {r.lid} got {nxt[2]}")
            pos += 1
            while pos < len(ev) and ev[pos][0] != "end":
                gone.add(ev[pos][1])
                pos += 1
            pos += 1
        rest = [e for e in ev[pos:] if e[0] == "call"]
        if resolved is not None:
            w.stats["passed_on"] += bool(snap[snap.index(resolved) + 1:])
        w.check(not rest, "called-again", lambda: f"{what}: unexpected calls {[e[1].lid for e in rest]}, resolved future {resolved and resolved.lid}")
        for r in [x for rs in byid.values() for x in rs]:
            if r.future is not None and r is not resolved and r.future.done() and not r.future.cancelled():
                w.check(value(*r.future.result()) != msg or r.result == msg, "resolved-twice", lambda: f"{what}: it also resolved future {r.lid}")
        if resolved is not None:
            resolved.result = msg

    waits = []

    async def waiter(r, timeout):
        try:
            async with asyncio.timeout(timeout):
                got = await r.future
            w.check(r.result is not None and value(*got) == r.result, "future-wrong-message", lambda: f"future {r.lid}: {got} {r.result}")
            w.stats["waited"] += 1
        except (asyncio.TimeoutError, asyncio.CancelledError):
            w.check(r.result is None or r.future.cancelled() is False, "future-lost", lambda: f"future {r.lid}")

    for op in plan["ops"]:
        if op["dt"]:
            await asyncio.sleep(op["dt"])
        k = op["op"]
        if k == "msg":
            message(op)
        elif k == "reg":
            if sum(len(x) for x in regs.values()) < 20:
                register(op["l"])
        elif k in ("unreg", "cancel"):
            act([k, op["l"]])
        elif k == "wait":
            r = live(op["l"])
            if r is not None and r.future is not None:
                waits.append(asyncio.create_task(waiter(r, op["timeout"])))
        elif k == "dup":
            if last and w.now - last[-1][0] < 9:
                w.stats["dup"] += 1
                deliver(last[-1][1], last[-1][2], None)
        else:
            w.stats["bad"] += 1
            fr, _ = frame(op)
            deliver(op["dev"], fr[:4] + (fr[4][:-1] if op["kind"] != "zdo" else fr[4][:-2],), None)
        seq.clear()
    if waits:
        await asyncio.wait(waits, timeout=10)
        for x in waits:
            w.check(x.done(), "future-lost", "a waiter never ended")
    await asyncio.sleep(1)
    for src in list(regs):
        for r in list(regs[src]):
            unregister(r)
    await asyncio.sleep(11)
    for i in range(2):
        for k in ("cmd", "rep", "zdo"):
            message({"dev": i, "kind": k, "k": 1})
    left = sum(len(v) for v in getattr(app, "_req_listeners", {}).values())
    w.check(left == 0, "left-registered", lambda: f"{left} listeners are still registered")
    w.sample = {"listeners": plans[:3], "ops": plan["ops"][:4]}


PARTS = [Part("listeners", 1, generate, run, max_steps=100_000)]
