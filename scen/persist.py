"""Histories of operations on a persisted network, the abstract content of the
network model, and an executable reference model of what each persisted event
does to the stored content.  Shared by P01, P02 and P03 (and P15/P16/P22)."""
from __future__ import annotations

import asyncio
import json
import math
import struct

from scen import common
from sim import wire as W

# (type id, maker of raw bytes); all storable in SQLite
STORABLE = [
    (0x20, lambda r: W.u8(r.choice([0, 1, 7, 255]))),
    (0x21, lambda r: W.u16(r.choice([0, 1, 500, 65535]))),
    (0x23, lambda r: W.u32(r.choice([0, 1, 70000, 4294967295]))),
    (0x29, lambda r: struct.pack("<h", r.choice([0, -1, 2150, -32768]))),
    (0x2B, lambda r: struct.pack("<i", r.choice([0, -5, 2**31 - 1]))),
    (0x27, lambda r: W.u64(r.choice([0, 3, 2**62]))),
    (0x39, lambda r: struct.pack("<f", r.choice([0.0, 1.5, -20.25, math.inf]))),
    (0x42, lambda r: W.lvstr(r.choice(["", "abc", "xyz 1", "émoi", "123"]))),
    (0x41, lambda r: W.lvstr(bytes(r.choice([[], [0, 1, 2], [255, 254]])))),
    (0x10, lambda r: W.u8(r.choice([0, 1]))),
    (0x30, lambda r: W.u8(r.choice([0, 1, 2]))),
    (0x18, lambda r: W.u8(r.choice([0, 1, 0x80]))),
]
EUI64_TYPE = (0xF0, lambda r: W.u64(r.choice([0x00124B00AABB0001, 0x00158D0001000202])))
# values that SQLite cannot represent
UNSTORABLE = [
    (0x27, lambda r: W.u64(2**64 - 1 - r.randint(0, 3))),
    (0x48, lambda r: bytes([0x20]) + struct.pack("<H", 2) + b"\x01\x02"),
    (0x4C, lambda r: struct.pack("<H", 1) + b"\x20\x05"),
    (0x39, lambda r: struct.pack("<f", math.nan)),
    (0xF1, lambda r: bytes(range(16))),
]
# known attributes: (cluster, attr, type, raw)
KNOWN = [
    (6, 0, 0x10, lambda r: W.u8(r.choice([0, 1]))),
    (0x402, 0, 0x29, lambda r: struct.pack("<h", r.choice([2000, 2100, -100]))),
    (8, 0, 0x20, lambda r: W.u8(r.choice([0, 128, 254]))),
    (0x500, 0x0010, 0xF0, EUI64_TYPE[1]),
    (0x500, 2, 0x19, lambda r: W.u16(r.choice([0, 1, 3]))),
    (0, 0x4000, 0x42, lambda r: W.lvstr(r.choice(["1.0", "2.0.1"]))),
    (0, 7, 0x30, lambda r: W.u8(r.choice([1, 3, 4]))),
    (1, 0x21, 0x20, lambda r: W.u8(r.choice([200, 100]))),
]


def attr_op(rng, unstorable=0.0):
    if rng.random() < unstorable:
        ty, mk = rng.choice(UNSTORABLE)
        return {"c": rng.choice([None, 6, 0x402]), "a": 0xF000 + rng.randint(0, 2), "ty": ty, "raw": mk(rng).hex()}
    if rng.random() < 0.5:
        c, a, ty, mk = rng.choice(KNOWN)
        return {"c": c, "a": a, "ty": ty, "raw": mk(rng).hex()}
    ty, mk = rng.choice(STORABLE + [EUI64_TYPE])
    return {"c": None, "a": 0xF000 + rng.randint(0, 3), "ty": ty, "raw": mk(rng).hex()}


SIMPLE_INS = [0, 1, 3, 4, 6, 8, 0x402, 0x500]


def spec(rng, i, quirk=False):
    if quirk:
        eps = {"1": {"profile": 0x0104, "dev_type": 0x0051, "version": 1, "ins": [0, 3, 4, 6], "outs": [0x19],
                     "attrs": common.basic_attrs("AcmeQ", f"QUIRK{rng.randint(0, 1)}")}}
        return {"logical": 1, "manuf": 0x1234, "eps": eps}
    if rng.random() < 0.5:
        s = common.device_spec(rng, simple=True)
        s["eps"]["1"]["ins"] = SIMPLE_INS
        if rng.random() < 0.4:  # the same clusters in both directions
            s["eps"]["1"]["outs"] = [3, 6, 8, 0x19]
        s["eps"]["1"]["attrs"] = common.basic_attrs(f"Acme{i}", f"M{rng.randint(0, 9)}")
    else:
        s = common.device_spec(rng)
        first = True
        for e in s["eps"].values():
            if not first:
                e["attrs"] = {}  # one Basic cluster answers
            first = False
        if rng.random() < 0.5:  # alike endpoints
            for e in s["eps"].values():
                e["ins"] = sorted({*e["ins"], 4, 6})
                e["outs"] = sorted({*e["outs"], 6})
    s["logical"] = rng.choice([1, 1, 1, 2])
    s["mac_caps"] = 0x80 if s["logical"] == 2 else 0x8E
    if rng.random() < 0.15 and len(s["eps"]) > 1:
        s["inactive"] = [int(list(s["eps"])[-1])]
    return s


KINDS = ["report", "report", "report", "report", "read", "local", "clear", "unsup", "resup", "relays", "relays", "topo",
         "grp_add", "grp_add", "grp_rem", "grp_del", "grp_rename", "backup", "renwk", "announce", "remove", "rejoin",
         "leave", "readunsup", "write", "wait"]


def gen_ops(rng, n_devs, count, span, unstorable=0.0, kinds=KINDS):
    ops = [{"op": "join", "d": i, "at": rng.choice([0, 0, 0.5])} for i in range(n_devs)]
    use = [k for k in set(kinds) if rng.random() < 0.7] or ["report"]
    if rng.random() < 0.3:  # concentrate on a few kinds of changes
        use = rng.sample(sorted(set(kinds)), rng.choice([1, 2, 3]))
    twins = rng.random() < 0.35  # changes of attributes that differ in one part of their key only
    if twins and rng.random() < 0.4:
        use = [k for k in rng.choice([["local", "clear"], ["unsup", "resup"], ["report", "local", "clear", "unsup", "resup"], ["grp_add", "grp_rem"]]) if k in kinds] or use
    use = sorted(use)
    w = [kinds.count(k) for k in use]
    last = []
    for _ in range(count):
        k = rng.choices(use, w)[0]
        op = {"op": k, "d": rng.randrange(n_devs), "at": round(rng.choice([rng.uniform(0, 6), rng.uniform(0, span), rng.choice([8, 9, 10])]), 2)}
        if k in ("report", "read", "local", "clear", "unsup", "resup", "readunsup", "write"):
            op.update(attr_op(rng, unstorable))
            op["e"] = rng.randint(0, 2)
            op["ci"] = rng.randint(0, 5)
            op["out"] = rng.random() < 0.15
            op["n"] = rng.choice([1, 1, 2])
            if twins:
                op.update(c=rng.choice([6, 8]), a=0xF000 + rng.randint(0, 1), out=rng.random() < 0.5)
                if k in ("report", "read", "local", "unsup") and last and rng.random() < 0.6:
                    o = rng.choice(last)
                    op.update({f: o[f] for f in ("d", "c", "a", "e", "out")})
                    f = rng.choice(["out", "out", "c", "a", "e", "e", "e", "d"])
                    op[f] = {"out": not o["out"], "c": 14 - o["c"], "a": 0xF001 - o["a"] + 0xF000, "e": o["e"] + 1, "d": (o["d"] + 1) % n_devs}[f]
                last.append(op)
        elif k == "relays":
            op["r"] = rng.choice([[], [0x2222], [0x2222, 0x3333], [0x2222, 0x2222, 0], None])
        elif k == "topo":
            op["nb"] = [[rng.randint(0, 8), rng.choice([0, 1, 2]), rng.randint(0, 255)] for _ in range(rng.choice([0, 1, 3, 5]))]
            op["rt"] = [[rng.randint(0, 8), rng.choice([0, 1, 3]), rng.randint(0, 8)] for _ in range(rng.choice([0, 1, 4]))]
            op["direct"] = rng.random() < 0.5
        elif k in ("grp_add", "grp_rem", "grp_del", "grp_rename"):
            op["g"] = rng.randint(1, 3)
            op["e"] = rng.randint(0, 2)
            op["net"] = rng.random() < 0.5
            if twins and k in ("grp_add", "grp_rem"):
                op["g"], op["net"] = 1, op["net"] and rng.random() < 0.5
        elif k == "backup":
            op["inc"] = rng.choice([1, 100])
            op["chg"] = rng.choice([None, None, None, "channel", "key"])
        ops.append(op)
    return ops


QUIRK_DONE = False


def register_quirks():
    """Two quirks used by generated devices (they match no other device)."""
    global QUIRK_DONE
    if QUIRK_DONE:
        return
    QUIRK_DONE = True
    from zigpy.quirks import CustomCluster, CustomDevice
    from zigpy.zcl.clusters.general import LevelControl, OnOff
    from zigpy.zcl.clusters.measurement import TemperatureMeasurement

    class VTemp(CustomCluster, TemperatureMeasurement):
        pass

    class VOnOff(CustomCluster, OnOff):
        pass

    sig_ep = {1: {"profile_id": 0x0104, "device_type": 0x0051, "input_clusters": [0, 3, 4, 6], "output_clusters": [0x19]}}

    class Q0(CustomDevice):
        signature = {"models_info": [("AcmeQ", "QUIRK0")], "endpoints": sig_ep}
        replacement = {"endpoints": {1: {"profile_id": 0x0104, "device_type": 0x0051, "input_clusters": [0, 3, 4, VOnOff, VTemp],
                                         "output_clusters": [0x19]},
                                     2: {"profile_id": 0x0104, "device_type": 0x0051, "input_clusters": [VOnOff], "output_clusters": []}}}

    class Q1(CustomDevice):
        signature = {"models_info": [("AcmeQ", "QUIRK1")], "endpoints": sig_ep}
        replacement = {"manufacturer": "QuirkCo", "model": "Quirky",
                       "endpoints": {1: {"profile_id": 0x0104, "device_type": 0x0051, "input_clusters": [0, 3, 4, 6, LevelControl],
                                         "output_clusters": [0x19]}}}

    register_quirks.classes = (Q0, Q1, LevelControl)


# ---------------------------------------------------------------- content
def norm(v):
    """A value as a user compares it: equal values are equal here; values SQLite
    cannot represent are tuples starting with "unstorable"."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return ("unstorable", "nan") if v != v else float(v)
    if isinstance(v, int):
        return int(v) if -(2**63) <= v < 2**63 else ("unstorable", int(v))
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, str):
        return str(v)
    if v is None:
        return None
    if type(v).__name__ in ("EUI64", "ExtendedPanId"):
        return ("EUI64", str(v))
    return ("unstorable", f"{type(v).__name__}:{v!r}")


def storable(v):
    return not (isinstance(v, tuple) and v[0] == "unstorable")


def ser(x):
    return x.serialize()


def dev_items(dev, out, attrs=True):
    i = dev.ieee
    out[("dev", i)] = (int(dev.nwk), int(dev.status))
    if dev.node_desc is not None:
        out[("nd", i)] = ser(dev.node_desc)
    for eid, ep in dev.endpoints.items():
        if eid == 0:
            continue
        out[("ep", i, eid)] = (None if ep.profile_id is None else int(ep.profile_id),
                               None if ep.device_type is None else int(ep.device_type), int(ep.status))
        for typ, cls in ((0, ep.in_clusters), (1, ep.out_clusters)):
            for cid, c in cls.items():
                out[("cl", i, eid, typ, int(cid))] = 1
                if attrs:
                    for a, v in c._attr_cache.items():
                        out[("at", i, eid, typ, int(cid), int(a))] = norm(v)
                    for a in c.unsupported_attributes:
                        if isinstance(a, int):
                            out[("un", i, eid, typ, int(cid), int(a))] = 1


def backup_key(b):
    return ("bk", b.backup_time.isoformat())


def backup_val(b):
    return json.dumps(b.as_dict(), sort_keys=True)


def content(app, only=None):
    """Abstract content of an application's network model."""
    out = {}
    for i, dev in app.devices.items():
        if only is not None and i not in only:
            continue
        dev_items(dev, out)
        if dev.relays is not None:
            out[("rel", i)] = tuple(int(x) for x in dev.relays)
    for i, l in app.topology.neighbors.items():
        if l and (only is None or i in only):
            out[("nb", i)] = tuple(sorted(ser(n) for n in l))
    for i, l in app.topology.routes.items():
        if l and (only is None or i in only):
            out[("rt", i)] = tuple(sorted(ser(n) for n in l))
    for gid, g in app.groups.items():
        out[("grp", int(gid))] = g.name
        for (ieee, eid) in g.members:
            if only is None or ieee in only:
                out[("gm", int(gid), ieee, eid)] = 1
    for b in app.backups.backups:
        out[backup_key(b)] = backup_val(b)
    return out


EVENTS = ("device_joined", "raw_device_initialized", "device_removed", "device_relays_updated", "attribute_updated",
          "attribute_cleared", "unsupported_attribute_added", "unsupported_attribute_removed", "neighbors_updated",
          "routes_updated", "group_added", "group_member_added", "group_member_removed", "group_removed",
          "network_backup_created", "network_backup_removed", "device_last_seen_updated")


def ckey(c):
    ep = c.endpoint
    return (ep.device.ieee, ep.endpoint_id, 0 if c.is_server else 1, int(c.cluster_id))


class Event:
    __slots__ = ("name", "arg", "t", "n")

    def __init__(self, name, arg, t, n):
        self.name, self.arg, self.t, self.n = name, arg, t, n

    def __repr__(self):
        return f"{self.n}:{self.name}{self.arg if self.name != 'raw_device_initialized' else self.arg[0]}"


def capture(name, args):
    """What the event says, at the moment it is raised."""
    if name == "device_joined":
        return (args[0].ieee, int(args[0].nwk))
    if name == "raw_device_initialized":
        from zigpy.quirks import BaseCustomDevice

        d = args[0]
        items = {}
        if isinstance(d, BaseCustomDevice):
            items[("dev", d.ieee)] = (int(d.nwk), int(d.status))
            if d.node_desc is not None:
                items[("nd", d.ieee)] = ser(d.node_desc)
        else:
            dev_items(d, items)
        if d.relays is not None:
            items[("rel", d.ieee)] = tuple(int(x) for x in d.relays)
        return (d.ieee, items)
    if name == "device_removed":
        return (args[0].ieee,)
    if name == "device_relays_updated":
        return (args[0].ieee, None if args[1] is None else tuple(int(x) for x in args[1]))
    if name == "attribute_updated":
        return (ckey(args[0]) + (int(args[1]),), norm(args[2]))
    if name in ("attribute_cleared", "unsupported_attribute_added", "unsupported_attribute_removed"):
        return (ckey(args[0]) + (int(args[1]),),)
    if name in ("neighbors_updated", "routes_updated"):
        return (args[0], tuple(sorted(ser(n) for n in args[1])))
    if name in ("group_added", "group_removed"):
        return (int(args[0].group_id), args[0].name)
    if name in ("group_member_added", "group_member_removed"):
        return (int(args[0].group_id), args[1].device.ieee, args[1].endpoint_id)
    if name == "network_backup_created":
        return (backup_key(args[0]), backup_val(args[0]))
    if name == "network_backup_removed":
        return (backup_key(args[0]),)
    if name == "device_last_seen_updated":
        return (args[0].ieee,)
    raise AssertionError(name)


def apply(m, ev):
    """Effect of one event on the stored content ``m`` (mutates it)."""
    n, a = ev.name, ev.arg
    if n == "device_joined":
        k = ("dev", a[0])
        if k in m:
            m[k] = (a[1], m[k][1])
    elif n == "raw_device_initialized":
        for k, v in a[1].items():
            if k[0] == "at" and not storable(v):
                continue
            m[k] = v
    elif n == "device_removed":
        i = a[0]
        for k in [k for k in m if (len(k) > 1 and k[1] == i) or (k[0] == "gm" and k[2] == i)]:
            del m[k]
    elif n == "device_relays_updated":
        if a[1] is None:
            m.pop(("rel", a[0]), None)
        elif ("dev", a[0]) in m:
            m[("rel", a[0])] = a[1]
    elif n == "attribute_updated":
        if ("dev", a[0][0]) in m and storable(a[1]):
            m[("at",) + a[0]] = a[1]
    elif n == "attribute_cleared":
        m.pop(("at",) + a[0], None)
    elif n == "unsupported_attribute_added":
        if ("cl",) + a[0][:4] in m:
            m[("un",) + a[0]] = 1
    elif n == "unsupported_attribute_removed":
        m.pop(("un",) + a[0], None)
    elif n in ("neighbors_updated", "routes_updated"):
        k = ("nb" if n[0] == "n" else "rt", a[0])
        if ("dev", a[0]) in m:
            if a[1]:
                m[k] = a[1]
            else:
                m.pop(k, None)
    elif n == "group_added":
        m[("grp", a[0])] = a[1]
    elif n == "group_removed":
        m.pop(("grp", a[0]), None)
        for k in [k for k in m if k[0] == "gm" and k[1] == a[0]]:
            del m[k]
    elif n == "group_member_added":
        if ("grp", a[0]) in m and ("ep", a[1], a[2]) in m:
            m[("gm",) + a] = 1
    elif n == "group_member_removed":
        m.pop(("gm",) + a, None)
    elif n == "network_backup_created":
        m[a[0]] = a[1]
    elif n == "network_backup_removed":
        m.pop(a[0], None)


def show_diff(want, got, limit=6):
    out = []
    for k in sorted(set(want) | set(got), key=repr):
        if want.get(k) != got.get(k):
            out.append(f"{k}: expected {want.get(k)!r}, got {got.get(k)!r}")
    return "; ".join(out[:limit]) + (f" (+{len(out) - limit} more)" if len(out) > limit else "")


# ------------------------------------------------------------- environment
class Env:
    """A persisted network driven by plan operations."""

    def __init__(self, w, cfg, db_delay=0.0):
        from sim import radio as R, storage
        import zigpy.config as conf

        self.w, self.cfg, self.R, self.storage = w, cfg, R, storage
        register_quirks()
        self.radio = R.SimRadio(w, cfg)
        storage.attach(w, delay=db_delay)
        self.path = f"{w.scratch}/z.db"
        self.conf = R.base_config(**{conf.CONF_DATABASE: self.path})
        self.conf_key = conf.CONF_DATABASE
        self.devs = []
        for i, s in enumerate(cfg["devs"]):
            d = self.radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), s, f"d{i}"))
            for e in s.get("inactive", []):
                d.status_script[f"simple_desc{e}"] = [W.ZDO_NOT_ACTIVE] * 200
            d.eui = R.eui(d.ieee)
            d.moves = 0
            d.gone_until = 0.0
            self.devs.append(d)
        self.known = set()  # devices that were announced initialized and not removed since
        self.events = []
        self.app = None
        self.gen = 0
        self.early = {"nb": set(), "rt": set(), "rel": set()}  # recorded while the device was unknown
        self.idle_at = []  # (time, number of events) at each moment the database was idle
        self.last_idle = 0
        self.stopped = False
        self.backing_up, self.last_backup = False, -1.0

    # -- application life cycle
    async def boot(self, start=True):
        R = self.R
        app = R.SimApp(self.conf)
        app.sim_radio = self.radio
        await app._load_db()
        self.hook(app)
        self.app = app
        self.gen += 1
        self.known = set(app.devices)
        self.early = {"nb": set(), "rt": set(), "rel": set()}
        if start:
            await app.startup()
        return app

    def hook(self, app):
        env, w = self, self.w
        lst = app._dblistener

        def wrap(name, orig):
            def f(*args):
                if env.app is None or env.app is app:
                    env.event(name, args)
                return orig(*args)
            return f

        for nme in EVENTS:
            setattr(lst, nme, wrap(nme, getattr(lst, nme)))

        # a stopped application may still finish what it was doing; that does
        # not count
        class L:
            def raw_device_initialized(self, dev):
                if env.app is not None and env.app is not app:
                    return
                env.known.add(dev.ieee)
                if dev.ieee in env.early["rel"]:
                    env.early["rel"].discard(dev.ieee)

            def device_removed(self, dev):
                if env.app is not None and env.app is not app:
                    return
                env.known.discard(dev.ieee)

        class T:
            def neighbors_updated(self, ieee, l):
                (env.early["nb"].discard if ieee in env.known else env.early["nb"].add)(ieee)

            def routes_updated(self, ieee, l):
                (env.early["rt"].discard if ieee in env.known else env.early["rt"].add)(ieee)

        app.add_listener(L())
        app.topology.add_listener(T())

    last_call = None

    def event(self, name, args):
        if name in ("device_last_seen_updated", "device_relays_updated"):
            # one change, one call
            key = (self.w.loop.steps, name, args[0].ieee, id(args[1]))
            self.w.check(args[1] is None or key != self.last_call, "stored-twice", lambda: f"one change of {args[0].ieee} is handed to storage more than once ({name})")
            self.last_call = key
        if name != "device_last_seen_updated":
            ev = Event(name, capture(name, args), self.w.now, len(self.events))
            self.events.append(ev)
            self.w.log("persist", name)

    def db_idle(self):
        """True when no database operation is queued (call when nothing is runnable)."""
        return self.app is not None and self.app._dblistener is not None and not getattr(self.app._dblistener._db, "_sim_q", None)

    # -- operations
    def dev(self, d):
        return self.app.devices.get(d.eui)

    def cluster(self, op, dev):
        eps = [ep for eid, ep in sorted(dev.endpoints.items()) if eid != 0]
        if not eps:
            return None
        # prefer an endpoint that has the cluster
        for ep in eps[op["e"] % len(eps):] + eps[: op["e"] % len(eps)]:
            cls = ep.out_clusters if op["out"] else ep.in_clusters
            if op["c"] is not None:
                if op["c"] in cls:
                    return cls[op["c"]]
            elif cls:
                ids = sorted(cls)
                return cls[ids[op["ci"] % len(ids)]]
        return None

    def ready(self, d):
        dev = self.dev(d)
        return dev if dev is not None and dev.is_initialized and d.eui in self.known else None

    def neighbor(self, who, rel, lqi):
        i = who % (len(self.devs) + 1)
        ieee = self.devs[i].ieee if i < len(self.devs) else self.radio.coord.ieee
        nwk = self.devs[i].nwk if i < len(self.devs) else 0
        return W.u64(0x1122334455667788) + W.u64(ieee) + W.u16(nwk) + W.u8(0x25) + W.u8(0) + W.u8(1 + rel) + W.u8(lqi)

    def route(self, who, st, via):
        def nwk(i):
            i %= len(self.devs) + 1
            return self.devs[i].nwk if i < len(self.devs) else 0
        return W.u16(nwk(who)) + W.u8(st) + W.u16(nwk(via))

    async def do(self, op):
        w, R, app = self.w, self.R, self.app
        d = self.devs[op["d"]]
        k = op["op"]
        w.log("op", k, d.name)
        dev = self.dev(d)
        try:
            if k == "join":
                if d.on_network:
                    app.handle_join(R.t.NWK(d.nwk), d.eui, R.t.NWK(0))
            elif k == "clock":
                w.wall_skew += op["s"]
                w.stats["fault_clock_jump"] += 1
            elif k == "announce":
                if d.on_network:
                    d.announce()
            elif k == "renwk":
                if d.on_network:
                    d.moves += 1
                    w.stats["moved"] += 1
                    d.nwk = common.nwk_of(op["d"]) + d.moves
                    d.announce()
            elif k in ("report",):
                c = self.cluster(op, dev) if dev is not None else None
                if c is not None and d.on_network and c.endpoint.endpoint_id in d.eps:
                    recs = [(op["a"], op["ty"], bytes.fromhex(op["raw"]))]
                    if op["n"] == 2:
                        recs.append((0xF00A, 0x21, W.u16(int(w.now) & 0xFFF)))
                    d.report(c.endpoint.endpoint_id, int(c.cluster_id), recs)
            elif k in ("read", "readunsup", "write"):
                c = self.cluster(op, dev) if self.ready(d) else None
                if c is not None and c.endpoint.endpoint_id in d.eps and not self.stopped:
                    e = d.eps[c.endpoint.endpoint_id]
                    key = (int(c.cluster_id), op["a"])
                    if k == "readunsup":
                        e["attrs"].pop(key, None)
                    else:
                        e["attrs"][key] = (op["ty"], bytes.fromhex(op["raw"]))
                    if key in ((0, 4), (0, 5)):
                        return
                    if k == "write" and op["a"] in c.attributes:
                        v = W.decode(op["ty"], bytes.fromhex(op["raw"]))
                        await c.write_attributes({op["a"]: v})
                    else:
                        await c.read_attributes([op["a"]])
            elif k in ("local", "clear", "unsup", "resup"):
                c = self.cluster(op, dev) if dev is not None else None
                if c is not None and not self.stopped:
                    if k == "local":
                        c.update_attribute(op["a"], R.t.uint8_t(op["ci"] + len(op["raw"])))
                    elif k == "clear":
                        ks = [x for x in sorted(c._attr_cache) if not (c.cluster_id == 0 and x in (4, 5))]
                        a = op["a"] if op["a"] in c._attr_cache or not ks else ks[op["ci"] % len(ks)]
                        c.update_attribute(a, None)
                    elif k == "unsup":
                        if c.endpoint.endpoint_id in d.eps and c.cluster_id in (
                                d.eps[c.endpoint.endpoint_id]["outs"] if c.is_client else d.eps[c.endpoint.endpoint_id]["ins"]):
                            c.add_unsupported_attribute(op["a"])
                    else:
                        ks = sorted(x for x in c.unsupported_attributes if isinstance(x, int))
                        if ks:
                            c.remove_unsupported_attribute(ks[op["ci"] % len(ks)])
            elif k == "relays":
                if dev is not None and not self.stopped:
                    if op["r"] is None:
                        dev.relays = None
                    else:
                        app.handle_relays(R.t.NWK(d.nwk), [R.t.NWK(x) for x in op["r"]])
            elif k == "topo":
                d.neighbors = [self.neighbor(*x) for x in op["nb"]]
                d.routes = [self.route(*x) for x in op["rt"]]
                dv = self.ready(d)
                if dv is not None and not self.stopped:
                    await app.topology.scan([dv] if op["direct"] else None)
            elif k == "grp_add":
                dv = self.ready(d)
                if dv is not None and not self.stopped:
                    if op["net"]:
                        eps = [ep for ep in dv.non_zdo_endpoints if ep.endpoint_id in d.eps]
                        await eps[op["e"] % len(eps)].add_to_group(op["g"], f"g{op['g']}")
                    else:
                        eps = [ep for ep in dv.non_zdo_endpoints if ep.endpoint_id in d.eps]
                        app.groups.add_group(op["g"], f"g{op['g']}").add_member(eps[op["e"] % len(eps)])
            elif k == "grp_rem":
                dv = self.ready(d)
                if dv is not None and not self.stopped:
                    eps = [ep for ep in dv.non_zdo_endpoints if ep.endpoint_id in d.eps]
                    ep = eps[op["e"] % len(eps)]
                    if op["net"]:
                        await ep.remove_from_group(op["g"])
                    elif op["g"] in app.groups:
                        app.groups[op["g"]].remove_member(ep)
            elif k == "grp_del":
                if op["g"] in app.groups and not self.stopped:
                    app.groups.pop(op["g"])
            elif k == "grp_rename":
                if not self.stopped:
                    if op["g"] in app.groups:
                        app.groups.pop(op["g"])
                    app.groups.add_group(op["g"], None if op["net"] else f"name{op['e']}")
            elif k == "backup":
                if not self.stopped:
                    net = self.radio.net
                    key = net.network_key
                    net = net.replace(network_key=key.replace(tx_counter=key.tx_counter + op["inc"]))
                    if op["chg"] == "channel":
                        net = net.replace(channel=R.t.uint8_t(11 + (net.channel - 10) % 16))
                    elif op["chg"] == "key":
                        net = net.replace(network_key=key.replace(key=R.t.KeyData(bytes([int(w.now) & 0xFF]) * 16)))
                    self.radio.net = net
                    # backups are identified by the moment they were taken
                    while self.w.now - self.last_backup < 0.001 or self.backing_up:
                        await asyncio.sleep(0.25)
                    self.backing_up = True
                    try:
                        await app.backups.create_backup()
                    finally:
                        self.backing_up, self.last_backup = False, self.w.now
            elif k == "remove":
                if dev is not None and d.on_network and not self.stopped:
                    d.gone_until = w.now + 45
                    w.stats["removed"] += 1
                    await app.remove(d.eui)
                    # the device leaves; whatever it had in flight is lost
                    d.on_network = False
            elif k == "rejoin":
                if not d.on_network and w.now >= d.gone_until:
                    d.on_network = True
                    for e in d.eps.values():
                        e["groups"].clear()
                    app.handle_join(R.t.NWK(d.nwk), d.eui, R.t.NWK(0))
            elif k == "leave":
                if dev is not None:
                    app.handle_leave(R.t.NWK(d.nwk), d.eui)
        except (asyncio.TimeoutError, self.R.zigpy.exceptions.ZigbeeException, self.R.Weird):
            w.stats["op_failed"] += 1
        except asyncio.CancelledError:
            if k == "topo":  # replaced by another scan
                return
            raise

    async def run_ops(self, ops, t0):
        tasks = []

        async def at(op):
            dt = t0 + op["at"] - self.w.now
            if dt > 0:
                await asyncio.sleep(dt)
            if self.stopped:
                return
            await self.do(op)

        for op in ops:
            tasks.append(asyncio.create_task(at(op)))
        return tasks

    async def shutdown(self):
        self.stopped = True
        await self.app.shutdown()
        self.stopped = False

    async def crash(self, image):
        """The process dies; the next one finds the files of ``image``."""
        from sim.storage import copy_db

        app = self.app
        self.stopped = True
        conn = app._dblistener._db
        conn._sim_dead = True
        lst = app._dblistener
        detach_db(app)
        worker = getattr(lst, "_worker_task", None)
        if worker is not None:
            worker.cancel()
        lst.running = False
        for dev in app.devices.values():
            dev.cancel_initialization()
        for t in list(getattr(app, "_tasks", ())):
            t.cancel()
        await app.shutdown(db=False)
        if conn._connection is not None:
            conn._connection.close()
        self.gen_files = getattr(self, "gen_files", 0) + 1
        self.path = f"{self.w.scratch}/z{self.gen_files}.db"
        copy_db(image, self.path)
        self.conf[self.conf_key] = self.path
        self.stopped = False

    async def load_copy(self, path):
        """A fresh application's view of the database file ``path``."""
        app = self.R.SimApp(self.R.base_config(**{self.conf_key: path}))
        app.sim_radio = None
        await app._load_db()
        return app


def detach_db(app):
    """The database no longer hears of changes."""
    for source in (app.topology, app.backups, app.groups, app):
        source.remove_listener(app._dblistener)


def stop_group_scans(app):
    for dev in app.devices.values():
        scan = getattr(dev, "_group_scan_task", None)
        if scan is not None:
            scan.cancel()


def group_scans_done(app):
    return all(x is None or x.done() for x in (getattr(dev, "_group_scan_task", None) for dev in app.devices.values()))


async def close_copy(app):
    if app._dblistener is not None:
        detach_db(app)
        await app._dblistener.shutdown()
