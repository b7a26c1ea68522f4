"""P30: every listener of an object is told of each of its events, once and in order."""
import asyncio
import functools

from scen import common
from sim import wire as W
from sim.core import HarnessError
from sim.runner import Part

PROPERTY = "P30"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 400000}
BATCH = 50
REAL = ["zigpy.util.ListenableMixin", "events of ControllerApplication, Device, ZDO, Cluster and Groups", "receive path from packet_received to the clusters"]
STUBS = ["radio and devices (reports, commands, announcements)", "clock and scheduler", "listeners (generated, scripted per call)"]
RULE = ("a run = 2..16 listeners on the application, its groups, devices, ZDOs and clusters, each knowing some of the events, plain or with the object passed along, registered once or twice; "
        "on drawn calls they raise, unregister themselves or others, register others, or cause further events while the event is being delivered; 5..60 reports, commands, announcements, "
        "leaves, relays, group changes, marks and connection losses; distinct = distinct sequence of calls")
STATES = "(event, listeners then registered, what listeners did meanwhile)"
PROBES = ["delivered", "raised", "unreg_self", "unreg_other", "reg_during", "nested", "twice", "ctx", "unknown_method", "late_reg", "attribute_updated", "attribute_cleared", "general_command", "cluster_command",
          "device_left", "device_relays_updated", "device_announce", "zdo_device_annce", "permit_duration", "group_added", "group_member_added", "group_member_removed", "group_removed", "connection_lost",
          "unsupported_attribute_added", "unsupported_attribute_removed", "handle_message"]
ASSUMPTIONS = ["a listener registered or unregistered during the delivery of an event may or may not be told of that event", "listeners raise only Exceptions"]

# (attribute, type, width) per cluster; the clusters of a device
ATTRS = {6: [(0x4001, 0x21, 2), (0x4002, 0x21, 2)], 8: [(0x0001, 0x21, 2), (0x0011, 0x20, 1)], 0x402: [(0x0000, 0x29, 2)]}
EVENTS = ["attribute_updated", "attribute_cleared", "general_command", "cluster_command", "device_left", "device_relays_updated", "device_announce", "zdo_device_annce", "zdo_mgmt_permit_joining_req",
          "permit_duration", "group_added", "group_member_added", "group_member_removed", "group_removed", "connection_lost", "unsupported_attribute_added", "unsupported_attribute_removed", "handle_message"]
OBJS = ["app", "groups", "dev", "zdo", "c6", "c8", "c1026", "o5"]
OF = {"app": ["device_left", "connection_lost", "handle_message"], "groups": ["group_added", "group_member_added", "group_member_removed", "group_removed"], "dev": ["device_relays_updated"],
      "zdo": ["device_announce", "zdo_device_annce", "permit_duration", "zdo_mgmt_permit_joining_req"], "o5": ["cluster_command", "general_command"]}
CL = ["attribute_updated", "general_command", "attribute_cleared", "unsupported_attribute_added", "unsupported_attribute_removed"]


NESTED = ["report"] * 5 + ["recall", "recall", "annce", "permit", "leave", "relays", "lost"]


def gen_op(rng, nd, kinds=None):
    k = rng.choice(kinds or ["report"] * 5 + ["recall", "recall", "annce", "permit", "leave", "relays", "group", "group", "clear", "unsup", "unsup", "lost", "junk"])
    op = {"op": k, "d": rng.randrange(nd), "c": rng.choice([6, 8, 0x402])}
    if k == "report":
        op["recs"] = [[rng.randrange(len(ATTRS[op["c"]])), rng.randint(1, 200)] for _ in range(rng.choice([1, 1, 2, 3]))]
    elif k in ("clear", "unsup"):
        op["a"] = rng.randrange(len(ATTRS[op["c"]]))
    elif k == "group":
        op["g"], op["what"] = rng.choice([1, 2]), rng.choice(["add", "member", "member", "unmember", "remove"])
    op["v"] = rng.randrange(1, 200)
    return op


def generate(rng, tier):
    nd = rng.choice([1, 2])
    objs = [(o, d) for o in OBJS for d in range(nd if o not in ("app", "groups") else 1)]
    hot = rng.sample(objs, rng.choice([1, 2, 3, len(objs)]))
    ls = []
    for i in range(rng.choice([2, 4, 8, 16])):
        o = rng.choice(hot)
        acts = {}
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            acts[str(rng.randrange(12))] = rng.choice([["raise", rng.randrange(4)], ["raise", 0], ["rm_self"], ["rm", rng.randrange(16)], ["add", rng.randrange(16)], ["nest", gen_op(rng, nd, NESTED)]])
        if rng.random() < 0.12:
            acts["*"] = ["raise", rng.randrange(4)]
        ls.append({"o": o, "events": None if rng.random() < 0.6 else rng.sample(OF.get(o[0], CL), rng.choice([1, 2]) if len(OF.get(o[0], CL)) > 1 else 1), "ctx": rng.random() < 0.3,
                   "start": rng.choice([0, 1, 1, 1, 2]), "acts": acts})
    ops = []
    kinds = {o for o, _ in hot}
    for i in range(rng.choice([5, 15, 30, 60])):
        if rng.random() < 0.15:
            op = {"op": rng.choice(["reg", "unreg"]), "l": rng.randrange(len(ls))}
        else:
            for _ in range(4):
                op = gen_op(rng, nd)
                near = {"report": f"c{op['c']}", "clear": f"c{op['c']}", "unsup": f"c{op['c']}", "recall": "o5", "annce": "zdo", "permit": "zdo", "leave": "app", "lost": "app", "relays": "dev", "group": "groups"}
                if near.get(op["op"]) in kinds:
                    break
        op["gap"] = rng.choice([0, 0, 0.1, 3])
        ops.append(op)
    return {"cfg": {"nd": nd, "ls": ls, "net": common.net(rng)}, "ops": ops}


class Stop(Exception):
    pass


async def run(w, plan):
    from sim import radio as R
    t = R.t
    cfg = plan["cfg"]
    radio = R.SimRadio(w, cfg["net"])
    radio.faults_on = False
    app = await R.start_app(w, radio, recorder=False)
    radio.faults_on = True
    sims, devs = [], []
    for i in range(cfg["nd"]):
        d = radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), {"logical": 1, "mac_caps": 0x8E, "eps": {"1": {"ins": [0, 6, 8, 0x402], "outs": [5]}}}, f"d{i}"))
        sims.append(d)
        devs.append(common.ready_device(app, d, R))

    def obj(o, d):
        if o in ("app", "groups"):
            return app if o == "app" else app.groups
        ep = devs[d].endpoints[1]
        return {"dev": lambda: devs[d], "zdo": lambda: devs[d].zdo, "o5": lambda: ep.out_clusters[5]}.get(o, lambda: ep.in_clusters[int(o[1:])])()

    reg = {}  # object -> the listeners registered, in order, as [listener number]
    insts = []  # deliveries: one entry for each event the first listener (the tap) saw
    calls = {}
    frames = []  # events seen by the taps, one list for each operation in progress
    depth = [0]

    class Tap:
        """The first listener of an object: it sees when the delivery of an event begins."""

        def __init__(self, key):
            self.key = key

        def __getattr__(self, name):
            if name not in EVENTS:
                raise AttributeError(name)
            return functools.partial(self.got, name)

        def got(self, name, *args):
            w.stats[name] += 1
            inst = {"key": self.key, "event": name, "args": args, "snap": [x for x in reg[self.key] if knows(x, name)], "got": [], "gone": set(), "new": set(), "acts": [], "over": False}
            insts.append(inst)
            w.log("event", *self.key, name)
            if frames:
                frames[-1].append(inst)

    def knows(i, name):
        ev = cfg["ls"][i]["events"]
        return ev is None or name in ev

    class Listener:
        def __init__(self, i, spec):
            self.i, self.spec = i, spec

        def __getattr__(self, name):
            if name not in EVENTS or (self.spec["events"] is not None and name not in self.spec["events"]):
                if name in EVENTS:
                    w.stats["unknown_method"] += 1
                raise AttributeError(name)
            return functools.partial(self.got, name)

        def got(self, name, *args):
            i, key = self.i, tuple(self.spec["o"])
            w.log("call", i, name)
            if self.spec["ctx"]:
                w.stats["ctx"] += 1
                w.check(args and args[0] is obj(*key), "wrong-arguments", lambda: f"listener {i} of {key} was called for {name} with {args!r} instead of the object first")
                args = args[1:]
            inst = next((x for x in reversed(insts) if not x["over"] and x["key"] == key and x["event"] == name and len(x["args"]) == len(args) and all(a is b for a, b in zip(x["args"], args))), None)
            if inst is None:
                w.violate("wrong-arguments", f"listener {i} of {key} was told of {name} {args!r}, which the first listener of the object was not told of")
                return None
            w.stats["delivered"] += 1
            inst["got"].append(i)
            n = calls[i] = calls.get(i, -1) + 1
            act = self.spec["acts"].get("*") or self.spec["acts"].get(str(n))
            if act is None:
                return i
            inst["acts"].append(act[0])
            if act[0] == "rm_self":
                w.stats["unreg_self"] += 1
                unregister(i)
            elif act[0] == "rm":
                w.stats["unreg_other"] += 1
                unregister(act[1] % len(cfg["ls"]))
            elif act[0] == "add":
                w.stats["reg_during"] += 1
                register(act[1] % len(cfg["ls"]))
            elif act[0] == "nest":
                if depth[0] < 3:
                    w.stats["nested"] += 1
                    depth[0] += 1
                    before = len(insts)
                    try:
                        perform(act[1])
                    finally:
                        depth[0] -= 1
                        for x in insts[before:]:
                            x["over"] = True
            elif act[0] == "raise":
                w.stats["raised"] += 1
                w.stats["fault_listener_raised"] += 1
                raise [Stop, ValueError, asyncio.TimeoutError, KeyError][act[1]](f"listener {i}")
            return i

    lobjs = [Listener(i, s) for i, s in enumerate(cfg["ls"])]
    multi = set()
    running = [False]

    def touched(i, what):
        if running[0]:
            for x in insts[mark[0]:]:
                if x["key"] == tuple(cfg["ls"][i]["o"]):
                    x[what].add(i)

    def register(i):
        key = tuple(cfg["ls"][i]["o"])
        o = obj(*key)
        if reg[key].count(i) >= 2:
            return
        if i in reg[key]:
            w.stats["twice"] += 1
            multi.add(i)
        (o.add_context_listener if cfg["ls"][i]["ctx"] else o.add_listener)(lobjs[i])
        reg[key].append(i)
        touched(i, "new")

    def unregister(i):
        key = tuple(cfg["ls"][i]["o"])
        obj(*key).remove_listener(lobjs[i])
        if i in reg[key]:
            reg[key].remove(i)
            touched(i, "gone")

    keys = [(o, d) for o in OBJS for d in range(cfg["nd"] if o not in ("app", "groups") else 1)]
    for key in keys:
        reg[key] = []
        obj(*key).add_listener(Tap(key))
    mark = [0]
    for i, s in enumerate(cfg["ls"]):
        for _ in range(s["start"]):
            register(i)

    def packet(d, ep, dst_ep, profile, cluster, data):
        radio.deliver(d, d.nwk, ep, dst_ep, profile, cluster, data)

    def do(op):
        """Makes something happen; returns the events it must cause, in order."""
        k, d, dev = op["op"], sims[op["d"]], devs[op["d"]]
        n = op["d"]
        hm = (("app", 0), "handle_message", None)
        if k in ("report", "clear", "unsup"):
            key = (f"c{op['c']}", n)
            c = obj(*key)
        if k == "report":
            recs = [(ATTRS[op["c"]][a], v) for a, v in op["recs"]]
            tsn = d.next_tsn()
            pl = b"".join(W.u16(a) + W.u8(ty) + v.to_bytes(width, "little") for (a, ty, width), v in recs)
            packet(d, 1, 1, 0x0104, op["c"], W.Zcl(False, True, tsn, W.REPORT, pl, disable_dr=True).bytes())
            return [hm, (key, "general_command", lambda a: int(a[0].tsn) == tsn)] + [
                (key, "attribute_updated", lambda a, x=x, v=v: (int(a[0]), int(a[1])) == (x, v)) for (x, _, _), v in recs]
        if k == "recall":
            tsn = d.next_tsn()
            packet(d, 1, 1, 0x0104, 5, W.Zcl(True, False, tsn, 5, W.u16(op["v"]) + W.u8(1), disable_dr=True).bytes())
            return [hm, (("o5", n), "cluster_command", lambda a: (int(a[0]), int(a[1]), int(a[2].group_id)) == (tsn, 5, op["v"]))]
        if k == "annce":
            packet(d, 0, 0, 0, W.DEVICE_ANNCE, W.u8(d.next_tsn()) + W.u16(d.nwk) + W.u64(d.ieee) + b"\x8e")
            return [hm, (("zdo", n), "device_announce", lambda a: a[0] is dev), (("zdo", n), "zdo_device_annce", lambda a: a[0] is dev)]
        if k == "permit":
            packet(d, 0, 0, 0, W.MGMT_PERMIT_REQ, W.u8(d.next_tsn()) + bytes([op["v"], 0]))
            return [hm, (("zdo", n), "permit_duration", lambda a: int(a[0]) == op["v"]), (("zdo", n), "zdo_mgmt_permit_joining_req", lambda a: a[0] is dev)]
        if k == "junk":
            packet(d, 1, 1, 0x0104, 6, bytes([0x18, d.next_tsn(), 0x0A, 0x01]))
            return [hm]
        if k == "leave":
            app.handle_leave(t.NWK(d.nwk), R.eui(d.ieee))
            return [(("app", 0), "device_left", lambda a: a[0] is dev)]
        if k == "relays":
            app.handle_relays(t.NWK(d.nwk), [t.NWK(0x1000 + op["v"])])
            return [(("dev", n), "device_relays_updated", lambda a: [int(x) for x in a[0]] == [0x1000 + op["v"]])]
        if k == "lost":
            exc = ConnectionError("gone")
            app.connection_lost(exc)
            return [(("app", 0), "connection_lost", lambda a: a[0] is exc)]
        if k == "clear":
            a = ATTRS[op["c"]][op["a"]][0]
            had = c.get(a) is not None
            c.update_attribute(a, None)
            return [(key, "attribute_cleared", lambda x: int(x[0]) == a)] if had else []
        if k == "unsup":
            a = ATTRS[op["c"]][op["a"]][0]
            had = a in c.unsupported_attributes
            (c.remove_unsupported_attribute if had else c.add_unsupported_attribute)(t.uint16_t(a))
            return [(key, "unsupported_attribute_removed" if had else "unsupported_attribute_added", lambda x: int(x[0]) == a)]
        if k == "group":
            gs, g, ep = app.groups, op["g"], dev.endpoints[1]
            key = ("groups", 0)
            have = gs.get(g)
            what = op["what"]
            members = list(have.values()) if have is not None else []
            if what == "add":
                gs.add_group(g, "g")
                return [] if have is not None else [(key, "group_added", lambda a: int(a[0].group_id) == g)]
            if have is None:
                return []
            if what == "remove":
                gs.pop(g)
                return [(key, "group_member_removed", lambda a, m=m: a[0] is have and a[1] is m) for m in members] + [(key, "group_removed", lambda a: a[0] is have)]
            if what == "member":
                have.add_member(ep)
                return [] if ep in members else [(key, "group_member_added", lambda a: a[0] is have and a[1] is ep)]
            have.remove_member(ep)
            return [(key, "group_member_removed", lambda a: a[0] is have and a[1] is ep)] if ep in members else []
        raise HarnessError(k)

    def perform(op):
        frames.append([])
        try:
            want = do(op)
        finally:
            top = frames.pop()
        seen = [(x["key"], x["event"], x["args"]) for x in top]
        # what else happens (other events) is not our concern
        names = {(kk, e) for kk, e, _ in want}
        have = [x for x in seen if (x[0], x[1]) in names]
        w.check([x[:2] for x in have] == [x[:2] for x in want], "events", lambda: f"{op}: the events were {[x[:2] for x in seen]}, expected {[x[:2] for x in want]}")
        if len(have) == len(want):
            for (kk, e, a), (_, _, ok) in zip(have, want):
                w.check(ok is None or ok(a), "event-arguments", lambda: f"{op}: {e} of {kk} with {a!r}")

    def verify():
        for x in insts[mark[0]:]:
            what = f"{x['event']} of {x['key']}"
            may = x["gone"] | x["new"]
            for i in set(x["got"]) | set(x["snap"]):
                n, m = x["got"].count(i), x["snap"].count(i)
                if i in may:
                    w.check(n <= m + (2 if i in x["new"] else 0), "told-twice", lambda: f"listener {i} was told {n} times of {what}")
                else:
                    w.check(n >= m, "not-told", lambda: f"listener {i}, registered {m} times, was told {n} times of {what} (order {x['snap']}, told {x['got']}, meanwhile {x['acts']})")
                    w.check(n <= m, "told-twice", lambda: f"listener {i}, registered {m} times, was told {n} times of {what} (meanwhile {x['acts']})")
            flex = may | multi
            a, b = ([i for i in y if i not in flex] for y in (x["snap"], x["got"]))
            w.check(a == b, "order", lambda: f"{what} was delivered to {x['got']}, registered {x['snap']}")
            x["over"] = True
            w.state(x["event"], min(len(x["snap"]), 6), tuple(sorted(set(x["acts"]))))
        mark[0] = len(insts)

    running[0] = True
    for op in plan["ops"]:
        await asyncio.sleep(op["gap"])
        if op["op"] in ("reg", "unreg"):
            w.stats["late_reg"] += op["op"] == "reg"
            (register if op["op"] == "reg" else unregister)(op["l"] % len(cfg["ls"]))
            verify()
            continue
        perform(op)
        verify()
    w.sample = {"listeners": cfg["ls"][:3], "ops": plan["ops"][:4]}


PARTS = [Part("events", 1, generate, run)]
