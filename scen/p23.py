"""P23: requests from devices are answered."""
import asyncio
import os
import time

from scen import common
from sim import wire as W
from sim.core import HarnessError
from sim.runner import Part

PROPERTY = "P23"
LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 500000}
BATCH = 100
REAL = ["zigpy.zdo service handlers", "zigpy.zcl attribute server, default responses, Ota and Time clusters", "zigpy.device packet handling and request queue", "zigpy.endpoint", "zigpy.application"]
STUBS = ["radio and devices", "clock, time zone and scheduler"]
RULE = ("a run = 1..4 devices sending 10..60 requests (address, match descriptor, attribute reads, reports, firmware queries and blocks), requests about others, responses and garbage, "
        "while the coordinator sends requests of its own, under a radio that loses, fails, delays and repeats packets; distinct = distinct sequence of packets")
STATES = "(kind of packet, answers pending, own requests pending, interviewed) at each packet"
PROBES = ["nwk_addr", "ieee_addr", "match", "read", "report_dr", "report_quiet", "query", "block", "ota_busy", "about_others", "responses", "garbage", "duplicates", "expired_duplicates", "answers", "failed_answers",
          "slow_answers", "own_requests", "joining", "bad_listener", "same_tsn", "unsupported_attrs", "time_attrs", "manufacturer", "broadcasts", "answered_while_busy"]
ASSUMPTIONS = ["none beyond those of P06"]

ZONES = ["UTC", "Asia/Kolkata", "America/St_Johns", "Pacific/Auckland"]
TIME_ATTRS = {0: (0xE2, 4), 1: (0x18, 1), 2: (0x2B, 4), 7: (0x23, 4)}


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    devs = []
    for i in range(n):
        devs.append({"logical": rng.choice([1, 1, 2]), "manuf": 0x1234, "mac_caps": 0x8E, "tsn0": rng.choice([0, 200, 250, rng.randint(0, 255)]), "joins": i > 0 and rng.random() < 0.2, "eps": {
            "1": {"ins": [0, 3, 4, 6], "outs": [0x0A, 0x19], "attrs": common.basic_attrs()},
            str(rng.choice([2, 11, 242])): {"ins": [0, 6, 8] + ([0x0A] if rng.random() < 0.3 else []), "outs": [5, 0x19], "profile": rng.choice([0x0104, 0xC05E, 0x0109])},
        }})
    ops = []
    for _ in range(rng.choice([10, 20, 40, 60])):
        k = rng.choice(["nwk", "nwk", "ieee", "ieee", "match", "match", "read", "read", "read", "report", "report", "report", "query", "query", "block", "block", "others", "others", "response",
                        "garbage", "garbage", "own", "own", "own", "own", "busy", "repeat", "repeat", "zdo_misc", "cmd", "cmd", "pause", "join"])
        op = {"op": k, "d": rng.randrange(n), "e": rng.randrange(2), "dt": rng.choice([0, 0, 0, 0.1, 0.5, 1, 3, 8]), "n": rng.randrange(1 << 16), "tie": rng.random() < 0.2}
        if k == "read":
            op["cl"] = rng.choice([0x0A, 0x0A, 0, 6])
            op["ids"] = [rng.choice([0, 1, 2, 7, 3, 5, 7, 0x1234, 4]) for _ in range(rng.choice([1, 1, 2, 4]))]
            op["manuf"] = rng.random() < 0.1
        if k == "report":
            op["dr"] = rng.random() < 0.7
            op["manuf"] = rng.random() < 0.1
        if k == "own":
            op["what"] = rng.choice(["read", "read", "power", "toggle", "write"])
            op["prio"] = rng.choice([None, None, 1, -1])
        ops.append(op)
    net = common.net(rng)
    net["rates"].pop("send_timeout", None)
    return {"cfg": {"devs": devs, "net": net, "zone": rng.choice(ZONES), "skew": rng.choice([0, 0, 0, 3600 * 24 * 200.0, 76 * 31556952.0, -25 * 31556952.0, -54 * 31556952.0]), "bad": rng.random() < 0.5, "flat": rng.random() < 0.15}, "ops": ops}


async def run(w, plan):
    zone = os.environ.get("TZ")
    os.environ["TZ"] = plan["cfg"]["zone"]
    time.tzset()
    try:
        await _run(w, plan)
    finally:
        if zone is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = zone
        time.tzset()


async def _run(w, plan):
    from sim import radio as R
    import datetime as dt

    t = R.t
    cfg = plan["cfg"]
    w.wall_skew = cfg["skew"]
    radio = R.SimRadio(w, cfg["net"])
    sims = []
    for i, s in enumerate(cfg["devs"]):
        d = radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), s, f"d{i}"))
        d.eui = R.eui(d.ieee)
        d.recent, d.last, d.busy = {}, None, False
        d.node_desc_bytes = W.node_desc(d.logical, 0x8E, 0x1234)
        sims.append(d)
    by_nwk = {d.nwk: d for d in sims}
    app = await R.start_app(w, radio)
    epoch = dt.datetime(2000, 1, 1, tzinfo=dt.timezone.utc)

    st = {"bcast": False}
    want = []  # answers due: dict(d, kind, t, match(tx)->bool, seen)
    events, due_events = [], []
    own = set()

    class Bad:
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)

            def f(*a):
                w.stats["bad_listener"] += 1
                raise ValueError("listener")
            return f

    class ClusterL:
        def __init__(self, d, ep, cl):
            self.k = (d.name, ep, cl)

        def cluster_command(self, tsn, cmd, args):
            if (self.k[2], int(cmd)) in ((0x19, 1), (0x19, 3), (6, 0), (6, 1), (6, 2)):
                events.append((*self.k, "c", int(tsn), int(cmd)))

        def general_command(self, hdr, args):
            if int(hdr.command_id) in (W.READ, W.REPORT):
                events.append((*self.k, "g", int(hdr.tsn), int(hdr.command_id)))

    class ZdoL:
        def __init__(self, d):
            self.d = d

        def __getattr__(self, name):
            if not name.startswith("zdo_"):
                raise AttributeError(name)

            def f(dev, addressing, hdr, args):
                if int(hdr.command_id) in (W.NWK_ADDR_REQ, W.IEEE_ADDR_REQ, W.MATCH_DESC_REQ):
                    events.append((self.d.name, 0, int(hdr.command_id), "z", int(hdr.tsn), name))
            return f

    def listen(d):
        dev = app.devices[d.eui]
        dev.zdo.add_listener(ZdoL(d))
        if cfg["bad"]:
            dev.zdo.add_listener(Bad())
        for e, ep in dev.endpoints.items():
            if e:
                for cl in list(ep.in_clusters.values()) + list(ep.out_clusters.values()):
                    cl.add_listener(ClusterL(d, e, int(cl.cluster_id)))
                    if cfg["bad"]:
                        cl.add_listener(Bad())

    for i, d in enumerate(sims):
        if not cfg["devs"][i]["joins"]:
            common.ready_device(app, d, R)
            listen(d)

    # ---- the model
    def on_rx(rx):
        d = rx.dev
        if d not in sims or d.eui not in app.devices:
            return
        dev = app.devices[d.eui]
        data = bytes(rx.data)
        full = dev.is_initialized
        zdo = rx.dst_ep == 0
        key = (rx.src_ep, rx.dst_ep, rx.profile, rx.cluster, data, st["bcast"])
        first = d.recent.get(key)
        maybe = False
        if first is not None and rx.t - first <= 10.001:
            if rx.t - first < 9.999:
                w.stats["duplicates"] += 1
                return
            maybe = True
        elif first is not None:
            w.stats["expired_duplicates"] += 1
        if not maybe:
            d.recent[key] = rx.t
        else:
            d.recent.pop(key)
            d.fuzzy = True
        if not full and not zdo:
            d.fuzzy = True  # zigpy may or may not know enough of it to answer
            return
        w.state(int(rx.cluster) if zdo else (int(rx.cluster), data[:1]), len(want), len(own), full)
        ans = zdo_answer(d, rx, data) if zdo else zcl_answer(d, rx, data)
        if ans is not None:
            want.append({"d": d, "t": rx.t, "seen": 0, "maybe": maybe, **ans})

    def zdo_answer(d, rx, data):
        c = int(rx.cluster)
        b = W.Buf(data)
        if rx.src_ep != 0:
            return None
        try:
            tsn = b.u8()
            if c == W.NWK_ADDR_REQ:
                about = b.u64()
                b.take(2)
                due_events.append((d.name, 0, c, "z", tsn, "zdo_nwk_addr_req"))
                if about != R.COORD_IEEE:
                    w.stats["about_others"] += 1
                    return None
                w.stats["nwk_addr"] += 1
                return {"what": "its network address", "zdo": c | W.RSP, "head": bytes([tsn, 0]) + W.u64(R.COORD_IEEE) + W.u16(0)}
            if c == W.IEEE_ADDR_REQ:
                about = b.u16()
                b.take(2)
                due_events.append((d.name, 0, c, "z", tsn, "zdo_ieee_addr_req"))
                if about not in (0, 0xFFFF, 0xFFFD, 0xFFFC):
                    w.stats["about_others"] += 1
                    return None
                w.stats["ieee_addr"] += 1
                return {"what": "its IEEE address", "zdo": c | W.RSP, "head": bytes([tsn, 0]) + W.u64(R.COORD_IEEE) + W.u16(0)}
            if c == W.MATCH_DESC_REQ:
                b.u16()
                prof = b.u16()
                b.take(2 * b.u8())
                b.take(2 * b.u8())
                due_events.append((d.name, 0, c, "z", tsn, "zdo_match_desc_req"))
                w.stats["match"] += 1
                return {"what": "a matching endpoint", "zdo": c | W.RSP, "exact": bytes([tsn, 0, 0, 0]) + (b"\x01\x01" if prof == 0x0104 else b"\x00")}
        except ValueError:
            pass
        return None

    def zcl_answer(d, rx, data):
        e = d.eps.get(rx.src_ep)
        cl = int(rx.cluster)
        if e is None or cl not in e["ins"] + e["outs"]:
            return None
        try:
            f = W.Zcl.parse(data)
        except ValueError:
            return None
        base = {"ep": rx.src_ep, "cl": cl, "tsn": f.tsn, "manuf": f.manuf, "s2c": cl not in e["ins"], "profile": 0x0104 if e["profile"] == 0xC05E else e["profile"]}
        if f.cluster_specific:
            if (cl, f.cmd, f.s2c) in ((0x19, 1, False), (0x19, 3, False)):
                need = {1: 9 + 2 * (f.payload[0] & 1), 3: 14 + 8 * (f.payload[0] & 1) + 2 * (f.payload[0] >> 1 & 1)}[f.cmd]
                if len(f.payload) < need:
                    return None
                due_events.append((d.name, rx.src_ep, cl, "c", f.tsn, f.cmd))
                if d.busy:
                    w.stats["ota_busy"] += 1
                    return None
                w.stats["query" if f.cmd == 1 else "block"] += 1
                return {**base, "what": "no image" if f.cmd == 1 else "abort", "specific": True, "cmd": 2 if f.cmd == 1 else 5, "payload": b"\x98" if f.cmd == 1 else b"\x95"}
            if cl == 6 and f.cmd in (0, 1, 2) and not f.s2c:
                due_events.append((d.name, rx.src_ep, cl, "c", f.tsn, f.cmd))
            return None
        if f.cmd == W.READ:
            ids = [int.from_bytes(f.payload[i : i + 2], "little") for i in range(0, len(f.payload), 2)]
            if len(f.payload) % 2:
                return None
            due_events.append((d.name, rx.src_ep, cl, "g", f.tsn, f.cmd))
            w.stats["read"] += 1
            w.stats["manufacturer"] += f.manuf is not None
            return {**base, "what": "attributes", "specific": False, "cmd": W.READ_RSP, "ids": ids, "wall": w.wall()}
        if f.cmd == W.REPORT:
            if f.payload[2:3] != b"\x23" or len(f.payload) != 7:
                return None
            due_events.append((d.name, rx.src_ep, cl, "g", f.tsn, f.cmd))
            if data[0] & 0x10:
                w.stats["report_quiet"] += 1
                return None
            w.stats["report_dr"] += 1
            w.stats["manufacturer"] += f.manuf is not None
            return {**base, "what": "a default response", "specific": False, "cmd": W.DEFAULT_RSP, "payload": bytes([f.cmd, 0])}
        return None

    def attrs_ok(x, payload):
        b = W.Buf(payload)
        for a in x["ids"]:
            if b.u16() != a:
                return f"answers about other attributes: {payload.hex()}"
            st = b.u8()
            if x["cl"] == 0x0A and a in TIME_ATTRS:
                w.stats["time_attrs"] += 1
                # the zone's offset when the request arrived
                off = x["wall"].astimezone(__import__("zoneinfo").ZoneInfo(cfg["zone"])).utcoffset().total_seconds()
                now = (x["wall"] - epoch).total_seconds()
                exp = {0: now, 1: 7, 2: off, 7: now + off}[a]
                if a in (0, 7) and exp < 0:
                    # a clock that was never set: there is no such Zigbee time
                    w.stats["fault_wrong_clock"] += 1
                    if not st:
                        return f"attribute {a} has a value before the Zigbee epoch"
                    continue
                if st:
                    return f"time attribute {a} is refused with {st:#04x}"
                ty, n = TIME_ATTRS[a]
                got = b.u8()
                raw = b.take(n)
                if got != ty:
                    return f"attribute {a} has type {got:#04x}"
                v = int.from_bytes(raw, "little", signed=a == 2)
                if a == 1 and v != 0b1011 and v != 7 and not v & 1:
                    return f"time status {v:#04x}"
                if a != 1 and abs(v - exp) > 2:
                    return f"attribute {a} is {v}, not {exp}"
            elif x["cl"] == 0 and a in (0, 7):
                if st:
                    return f"basic attribute {a} is refused with {st:#04x}"
                b.u8()
                v = b.u8()
                if v != {0: 8, 7: 4}[a]:
                    return f"basic attribute {a} is {v}"
            else:
                w.stats["unsupported_attrs"] += 1
                if st != W.ZCL_UNSUP_ATTR:
                    return f"attribute {a:#06x} has status {st:#04x}"
        return f"trailing {b.rest().hex()}" if b.left else None

    def fits(x, tx):
        """None if this is no answer to x, '' if a correct one, else what is wrong."""
        data = bytes(tx.data)
        if "zdo" in x:
            if int(tx.cluster) != x["zdo"] or tx.dst_ep != 0 or data[:1] != (x.get("head") or x["exact"])[:1]:
                return None
            if tx.src_ep != 0 or tx.profile != 0:
                return f"comes from endpoint {tx.src_ep}, profile {tx.profile:#06x}"
            if "head" in x:
                return "" if data.startswith(x["head"]) else f"is {data.hex()}, not {x['head'].hex()}"
            return "" if data == x["exact"] else f"is {data.hex()}, not {x['exact'].hex()}"
        if tx.dst_ep == 0 or int(tx.cluster) != x["cl"] or tx.dst_ep != x["ep"]:
            return None
        f = W.Zcl.parse(data)
        if f.tsn != x["tsn"] or f.cluster_specific != x["specific"] or f.cmd != x["cmd"]:
            return None
        if tx.profile != x["profile"]:
            return f"has profile {tx.profile:#06x}"
        if f.manuf != x["manuf"]:
            return f"has manufacturer code {f.manuf}, the request has {x['manuf']}"
        if x["s2c"] and not f.s2c:
            return "goes in the direction of a request"
        if "ids" in x:
            return attrs_ok(x, f.payload) or ""
        return "" if f.payload == x["payload"] else f"is {f.payload.hex()}, not {x['payload'].hex()}"

    def is_answer(tx):
        if tx.dst_ep == 0:
            return bool(int(tx.cluster) & W.RSP)
        f = W.Zcl.parse(bytes(tx.data))
        return f.cmd in (W.READ_RSP, W.DEFAULT_RSP) if not f.cluster_specific else int(tx.cluster) == 0x19 and f.s2c

    def on_tx(tx):
        if tx.dst_mode not in (t.AddrMode.NWK, t.AddrMode.IEEE) or not is_answer(tx):
            return
        d = by_nwk.get(int(tx.dst))
        w.stats["answers"] += 1
        if own:
            w.stats["answered_while_busy"] += 1
        if d is None:
            w.violate("answer-to-nobody", f"an answer goes to {tx.dst}")
            return
        near = []
        for x in want:
            if x["d"] is d and not x["seen"]:
                r = fits(x, tx)
                if r == "":
                    x["seen"] = 1
                    x["tx"] = tx
                    return
                if r is not None:
                    near.append((x, r))
        if near:
            x, r = near[0]
            x["seen"] = 1
            x["tx"] = tx
            w.violate("wrong-answer", f"the answer to {d.name} ({x['what']}) {r}")
            return
        others = [x for x in want if x["d"] is not d and not x["seen"] and fits(x, tx) == ""]
        done = [x for x in want if x["d"] is d and x["seen"] and fits(x, tx) is not None]
        if others:
            w.violate("wrong-asker", f"{d.name} gets the answer meant for {others[0]['d'].name} ({others[0]['what']})")
        elif done:
            w.violate("answered-twice", f"{d.name} is answered twice ({done[-1]['what']}, transaction {bytes(tx.data[:3]).hex()})")
        elif not getattr(d, "fuzzy", False):
            w.violate("answer-invented", f"{d.name} is answered without having asked: cluster {int(tx.cluster):#06x} {bytes(tx.data).hex()}")

    radio.on_rx.append(on_rx)
    radio.on_tx.append(on_tx)

    busy_since = {}

    def quiet():
        for d in sims:
            if not any(o[0] is d for o in own):
                busy_since.setdefault(d.name, w.now)
            else:
                busy_since.pop(d.name, None)
        for x in list(want):
            if x["seen"]:
                if w.now - x["t"] > 400:
                    want.remove(x)
            elif not x["maybe"] and x["d"].name in busy_since and w.now - max(x["t"], busy_since[x["d"].name]) > 200 and x["d"].eui in app.devices and app.devices[x["d"].eui].is_initialized:
                w.violate("not-answered", f"{x['d'].name} asked for {x['what']} {w.now - x['t']:.0f} s ago and got no answer")
                want.remove(x)
        if not any(getattr(d, "fuzzy", False) for d in sims) and all(not cfg["devs"][i]["joins"] for i in range(len(sims))):
            mine = sorted(map(repr, due_events))
            have = sorted(repr(e) for e in events)
            if mine != have:
                for e in list(map(repr, due_events)):
                    if e in have:
                        have.remove(e)
                        mine.remove(e)
                if mine:
                    w.violate("not-passed-on", f"listeners were not told of {mine[0]}")
                elif have:
                    w.violate("passed-on-twice", f"listeners were told of {have[0]} once more")
        events.clear()
        due_events.clear()

    w.on_quiet = quiet

    def send(d, dst_ep, src_ep, profile, cluster, data, bcast=False):
        if d.eui not in app.devices and not d.spec["joins"]:
            return
        d.last = (dst_ep, src_ep, profile, cluster, data)
        if bcast:
            w.stats["broadcasts"] += 1
            pk = t.ZigbeePacket(src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(d.nwk)), src_ep=t.uint8_t(src_ep), dst_ep=t.uint8_t(dst_ep), profile_id=t.uint16_t(profile),
                                dst=t.AddrModeAddress(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress.RX_ON_WHEN_IDLE), cluster_id=t.uint16_t(cluster), data=t.SerializableBytes(data))
            st["bcast"] = True
            radio.deliver(d, d.nwk, src_ep, dst_ep, profile, cluster, data, packet=pk)
            st["bcast"] = False
            return
        radio.reply(d, src_ep, dst_ep, profile, cluster, data)

    n_op = 0
    for op in plan["ops"]:
        n_op += 1
        await asyncio.sleep((0 if cfg["flat"] else op["dt"]) + 0.0001 * n_op)
        k, d = op["op"], sims[op["d"]]
        dev = app.devices.get(d.eui)
        eid = sorted(d.eps)[op["e"] % len(d.eps)]
        e = d.eps[eid]
        prof = e["profile"]
        tsn = d.next_tsn()
        if op["tie"] and k != "cmd":
            # the device happens to use the number of a request it has not answered yet
            tx = next((x for x in radio.txs[-4:] if x.dst_mode == t.AddrMode.NWK and int(x.dst) == d.nwk and w.now - x.t0 < 5), None)
            if tx is not None:
                tsn = tx.data[0] if tx.dst_ep == 0 else W.Zcl.parse(bytes(tx.data)).tsn
                w.stats["same_tsn"] += 1
        w.log("op", k, d.name)
        if dev is None and k != "join":
            continue
        if k == "nwk":
            send(d, 0, 0, 0, W.NWK_ADDR_REQ, W.u8(tsn) + W.u64(R.COORD_IEEE) + bytes([op["n"] % 2, 0]), op["n"] % 3 == 0)
        elif k == "ieee":
            send(d, 0, 0, 0, W.IEEE_ADDR_REQ, W.u8(tsn) + W.u16([0, 0, 0xFFFF, 0xFFFD, 0xFFFC][op["n"] % 5]) + bytes([0, 0]), op["n"] % 3 == 0)
        elif k == "others":
            if op["n"] % 2:
                send(d, 0, 0, 0, W.NWK_ADDR_REQ, W.u8(tsn) + W.u64([d.ieee, R.COORD_IEEE ^ 1, 0, sims[0].ieee][op["n"] // 2 % 4]) + bytes([0, 0]))
            else:
                send(d, 0, 0, 0, W.IEEE_ADDR_REQ, W.u8(tsn) + W.u16([d.nwk, 0x0001, 0xFFFE, sims[0].nwk][op["n"] // 2 % 4]) + bytes([0, 0]))
        elif k == "match":
            p = [0x0104, 0x0104, 0xC05E, 0x0109, 0x0000][op["n"] % 5]
            ins = [0x19, 6, 0x500][: op["n"] % 4]
            send(d, 0, 0, 0, W.MATCH_DESC_REQ, W.u8(tsn) + W.u16([0, 0xFFFD][op["n"] % 2]) + W.u16(p) + bytes([len(ins)]) + b"".join(W.u16(c) for c in ins) + b"\x00", op["n"] % 3 == 0)
        elif k == "read":
            cl = op["cl"] if op["cl"] in e["ins"] + e["outs"] else 0
            send(d, 1, eid, prof, cl, W.Zcl(False, False, tsn, W.READ, b"".join(W.u16(a) for a in op["ids"]), manuf=0x1234 if op["manuf"] else None).bytes())
        elif k == "report":
            cl = [6, 0, 8][op["n"] % 3]
            cl = cl if cl in e["ins"] else 6
            send(d, 1, eid, prof, cl, W.Zcl(False, True, tsn, W.REPORT, W.u16(0xF100) + b"\x23" + W.u32(op["n"]), manuf=0x1234 if op["manuf"] else None, disable_dr=not op["dr"]).bytes())
        elif k == "query":
            fc = op["n"] % 2
            send(d, 1, eid, prof, 0x19, W.Zcl(True, False, tsn, 1, bytes([fc]) + W.u16(0x1234) + W.u16(7) + W.u32(1) + (W.u16(1) if fc else b""), disable_dr=bool(op["n"] & 4)).bytes())
        elif k == "block":
            fc = op["n"] % 4
            send(d, 1, eid, prof, 0x19, W.Zcl(True, False, tsn, 3, bytes([fc]) + W.u16(0x1234) + W.u16(7) + W.u32(1) + W.u32(op["n"]) + b"\x40" + (W.u64(d.ieee) if fc & 1 else b"") + (W.u16(0) if fc & 2 else b"")).bytes())
        elif k == "cmd":
            send(d, 1, eid, prof, 6, W.Zcl(True, False, tsn, op["n"] % 3, b"").bytes())
        elif k == "response":
            w.stats["responses"] += 1
            c, b = [(W.NWK_ADDR_REQ | W.RSP, W.u8(0) + W.u64(d.ieee) + W.u16(d.nwk)), (W.IEEE_ADDR_REQ | W.RSP, W.u8(0) + W.u64(d.ieee) + W.u16(d.nwk)),
                    (W.MATCH_DESC_REQ | W.RSP, b"\x00" + W.u16(d.nwk) + b"\x01\x01")][op["n"] % 3]
            send(d, 0, 0, 0, c, W.u8(tsn) + b)
        elif k == "zdo_misc":
            c, b = [(0x36, b"\x3c\x00"), (W.DEVICE_ANNCE, W.u16(d.nwk) + W.u64(d.ieee) + b"\x8e"), (0x1F, b"\x00" * 4), (W.NODE_DESC_REQ, W.u16(0x4321))][op["n"] % 4]
            send(d, 0, 0, 0, c, W.u8(tsn) + b)
        elif k == "garbage":
            w.stats["garbage"] += 1
            x = op["n"] % 6
            if x == 0:
                send(d, 0, 0, 0, W.NWK_ADDR_REQ, W.u8(tsn) + W.u64(R.COORD_IEEE)[: op["n"] % 8])
            elif x == 1:
                send(d, 1, eid, prof, 6, W.Zcl(False, False, tsn, W.READ, b"\x00\x00\x01").bytes())
            elif x == 2:
                send(d, 1, 77, prof, 6, W.Zcl(False, False, tsn, W.READ, b"\x00\x00").bytes())
            elif x == 3:
                send(d, 1, eid, prof, 0x0700, W.Zcl(False, False, tsn, W.READ, b"\x00\x00").bytes())
            elif x == 4:
                send(d, 1, eid, prof, 0x19, W.Zcl(True, False, tsn, 1, b"\x00\x34").bytes())
            else:
                send(d, 1, eid, prof, 6, b"\x08"[: op["n"] % 2])
        elif k == "repeat":
            if d.last is not None:
                dst_ep, src_ep, profile, cluster, data = d.last
                send(d, dst_ep, src_ep, profile, cluster, data)
        elif k == "busy":
            d.busy = not d.busy
            dev.ota_in_progress = d.busy
        elif k == "own":
            if not dev.is_initialized:
                continue
            w.stats["own_requests"] += 1

            async def call(dev=dev, d=d, op=op):
                me = (d, object())
                own.add(me)
                try:
                    kw = {} if op["prio"] is None else {"priority": op["prio"]}
                    if op["what"] == "power":
                        await dev.zdo.Power_Desc_req(dev.nwk, **kw)
                    elif op["what"] == "read":
                        await dev.endpoints[1].on_off.read_attributes([0, 0x4001], **kw)
                    elif op["what"] == "write":
                        await dev.endpoints[1].identify.write_attributes({"identify_time": 3})
                    else:
                        await dev.endpoints[1].on_off.toggle(**kw)
                except Exception:  # noqa: BLE001
                    pass
                finally:
                    own.discard(me)

            asyncio.create_task(call())
        elif k == "pause":
            await asyncio.sleep(12.0037)
        elif k == "join":
            if cfg["devs"][op["d"]]["joins"]:
                d.announce()
                w.stats["joining"] += 1
        else:
            raise HarnessError(k)
    for i, d in enumerate(sims):
        d.online = True
    for _ in range(40):
        await asyncio.sleep(60.0017)
        if not own:
            break
    w.check(not own, "stuck", lambda: f"{len(own)} requests never ended")
    await asyncio.sleep(260.0017)
    quiet()
    for x in want:
        w.check(x["seen"] or x["maybe"] or not app.devices[x["d"].eui].is_initialized, "not-answered", lambda: f"{x['d'].name} asked for {x['what']} and got no answer")
        if x.get("tx") is not None:
            w.stats["failed_answers"] += x["tx"].outcome == "failed"
            w.stats["slow_answers"] += x["tx"].t1 is not None and x["tx"].t1 - x["tx"].t0 > 1
    w.on_quiet = None
    await app.shutdown()
    w.sample = {"answers": w.stats["answers"], "ops": len(plan["ops"])}


PARTS = [Part("service", 1, generate, run, max_steps=600_000)]
