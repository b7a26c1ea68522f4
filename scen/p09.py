"""P09: identical packets are processed once per debounce window, others always."""
import asyncio
import datetime

from scen import common
from sim import wire as W
from sim.runner import Part

PROPERTY = "P09"
LEVEL = "exploration"
RUNS = {"quick": 20000, "thorough": 600000}
BATCH = 100
REAL = ["Device.packet_received and its packet debouncer", "zigpy.datastructures.Debouncer", "ControllerApplication.packet_received", "response listeners"]
STUBS = ["radio (packets handed over directly)", "clock and scheduler"]
RULE = ("packets: 4..60 packets of 1..2 devices drawn from a few base packets and variants differing in one field, arriving at "
        "times around multiples of the 10 s window, with random timestamps, TSN metadata, LQI and RSSI; debouncer: uncomparable "
        "objects with individual windows; distinct = distinct arrival/processing sequence")
STATES = "(packets seen, age of the oldest accepted copy) buckets"
PROBES = ["filtered", "processed_again", "boundary", "variant", "metadata_only"]
ASSUMPTIONS = ["at exactly the end of the window either outcome is fine"]
VARY = ["data", "cluster", "src_ep", "dst_ep", "profile", "dst", "radius", "tx_options", "src_mode", "dev", "nmr", "ext"]
DELTAS = [0, 0, 0.25, 0.5, 1, 2, 4, 5, 8, 9.5, 9.75, 9.999, 10, 10.001, 10.25, 10.5, 11, 15, 20, 30]


def gen_packets(rng, tier):
    nb = rng.choice([1, 2, 3, 4, 6])
    base = [{"n": i, "ep": rng.choice([1, 2]), "zdo": rng.random() < 0.15, "cluster": rng.choice([6, 8])} for i in range(nb)]
    ops = []
    t = 0.0
    for i in range(rng.choice([4, 8, 16, 32, 60])):
        t = round(t + rng.choice(DELTAS), 3)
        op = {"op": "packet", "at": t, "b": rng.randrange(nb), "ts": rng.choice([None, 0, -100, 3600]), "tsn": rng.choice([0, 0, 7, 200]),
              "lqi": rng.choice([None, 0, 10, 255]), "rssi": rng.choice([None, -30, -90, 0])}
        if rng.random() < 0.3:
            op["vary"] = [rng.choice(VARY)]
        ops.append(op)
    return {"cfg": {"base": base, "stall_p": rng.choice([0, 0, 0.05])}, "ops": ops}


async def run_packets(w, plan):
    from sim import radio as R
    t = R.t

    cfg = plan["cfg"]
    w.loop.stall_p, w.loop.stall_max, w.loop.stalls_left = cfg["stall_p"], 12.0, 3
    radio = R.SimRadio(w, {})
    app = await R.start_app(w, radio)
    spec = {"logical": 1, "eps": {"1": {"ins": [0, 6, 8], "outs": [6]}, "2": {"ins": [0, 6, 8], "outs": []}}}
    sims = [radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), spec, f"d{i}")) for i in range(2)]
    devs = [common.ready_device(app, d, R) for d in sims]
    seen = []
    cms = [app.callback_for_response(dev, [lambda hdr, args: True], lambda hdr, args, dev=dev: seen.append(dev)) for dev in devs]
    for cm in cms:
        cm.__enter__()
    accepted = {}
    sig = {}
    t0 = w.now
    for op in plan["ops"]:
        if t0 + op["at"] > w.now:
            await asyncio.sleep(t0 + op["at"] - w.now)
        b = cfg["base"][op["b"]]
        f = {"dev": 0, "src_mode": "nwk", "src_ep": b["ep"], "dst_ep": 1, "profile": 0x0104, "cluster": b["cluster"],
             "data": W.Zcl(False, True, b["n"], W.REPORT, W.u16(0xF000) + b"\x20" + W.u8(b["n"])).bytes(),
             "dst": ("nwk", 0), "radius": 0, "tx_options": 0, "nmr": 0, "ext": False}
        if b["zdo"]:
            f.update(src_ep=0, dst_ep=0, profile=0, cluster=W.MATCH_DESC_REQ | W.RSP, data=W.u8(b["n"]) + b"\0" + W.u16(1) + b"\0")
        for v in op.get("vary", ()):
            w.stats["variant"] += 1
            if v == "data":
                f["data"] += b"\x01\xf0\x20\x01"
            elif v == "cluster":
                f["cluster"] = 0 if not b["zdo"] else W.ACTIVE_EP_REQ | W.RSP
            elif v == "src_ep":
                f["src_ep"] = 3 - f["src_ep"] if not b["zdo"] else f["src_ep"]
            elif v == "dst_ep":
                f["dst_ep"] = 2 if not b["zdo"] else 0
            elif v == "profile":
                f["profile"] = 0xC05E
            elif v == "dst":
                f["dst"] = ("group", 0x1234)
            elif v == "radius":
                f["radius"] = 3
            elif v == "nmr":
                f["nmr"] = 3
            elif v == "ext":
                f["ext"] = True
            elif v == "tx_options":
                f["tx_options"] = 1
            elif v == "src_mode":
                f["src_mode"] = "ieee"
            elif v == "dev":
                f["dev"] = 1
        dev = devs[f["dev"]]
        src = (t.AddrModeAddress(t.AddrMode.NWK, t.NWK(dev.nwk)) if f["src_mode"] == "nwk"
               else t.AddrModeAddress(t.AddrMode.IEEE, dev.ieee))
        dst = (t.AddrModeAddress(t.AddrMode.NWK, t.NWK(0)) if f["dst"][0] == "nwk" else t.AddrModeAddress(t.AddrMode.Group, t.Group(f["dst"][1])))
        ts = w.wall() if op["ts"] is None else w.wall() + datetime.timedelta(seconds=op["ts"])
        p = t.ZigbeePacket(timestamp=ts, src=src, src_ep=t.uint8_t(f["src_ep"]), dst=dst, dst_ep=t.uint8_t(f["dst_ep"]),
                           profile_id=t.uint16_t(f["profile"]), cluster_id=t.uint16_t(f["cluster"]), data=t.SerializableBytes(f["data"]),
                           tsn=t.uint8_t(op["tsn"]), radius=t.uint8_t(f["radius"]), tx_options=t.TransmitOptions(f["tx_options"]),
                           non_member_radius=t.uint8_t(f["nmr"]), extended_timeout=f["ext"],
                           lqi=None if op["lqi"] is None else t.uint8_t(op["lqi"]), rssi=None if op["rssi"] is None else t.int8s(op["rssi"]))
        key = tuple(sorted(f.items()))
        n0 = len(seen)
        radio.deliver(sims[f["dev"]], dev.nwk, f["src_ep"], f["dst_ep"], f["profile"], f["cluster"], f["data"], packet=p)
        n = len(seen) - n0
        w.log("processed", n, f["dev"])
        what = f"packet {op['b']} {op.get('vary', '')} at {w.now - t0:.3f}"
        w.check(n <= 1, "processed-twice", lambda: f"{what} reached its listener {n} times")
        last = accepted.get(key)
        if last is None:
            w.check(n == 1, "dropped", lambda: f"{what} was never received before but is not processed")
        elif w.now - last < 10 - 1e-6:
            w.stats["filtered"] += 1
            w.check(n == 0, "duplicate-processed", lambda: f"{what} is processed again {w.now - last:.3f} s after its first copy")
        elif w.now - last > 10 + 1e-6:
            w.stats["processed_again"] += 1
            w.check(n == 1, "dropped-after-window", lambda: f"{what} is not processed although its last copy was accepted {w.now - last:.3f} s earlier")
        else:
            w.stats["boundary"] += 1
        if n:
            accepted[key] = w.now
        s = sig.setdefault(f["dev"], {"lqi": None, "rssi": None})
        if op["lqi"] is not None:
            s["lqi"] = op["lqi"]
        if op["rssi"] is not None:
            s["rssi"] = op["rssi"]
        if n == 0:
            w.stats["metadata_only"] += 1
        w.check((dev.lqi, dev.rssi) == (s["lqi"], s["rssi"]), "signal-quality",
                lambda: f"{what}: LQI/RSSI are {dev.lqi}/{dev.rssi}, not {s}")
        w.check(dev.last_seen is not None and abs(dev.last_seen - ts.timestamp()) < 1e-3, "last-seen",
                lambda: f"{what}: last seen {dev.last_seen}, not {ts.timestamp()}")
        w.state(min(len(accepted), 6), int(min(40, w.now - min(accepted.values()))) if accepted else None)
    w.sample = {"base": len(cfg["base"]), "ops": plan["ops"][:5]}


def gen_deb(rng, tier):
    n = rng.choice([1, 2, 4, 8])
    ops = []
    t = 0.0
    wins = rng.choice([[1], [0.5, 1, 2], [0, 1, 10], [1, 2, 3, 4, 5, 6, 7]])
    for _ in range(rng.choice([4, 10, 30, 80])):
        t = round(t + rng.choice([0, 0, 0.25, 0.5, 0.5, 1, 1, 2, 5]), 3)
        ops.append({"op": rng.choice(["filter", "filter", "filter", "peek", "clean"]), "at": t, "o": rng.randrange(n), "win": rng.choice(wins)})
    return {"cfg": {"n": n}, "ops": ops}


class Obj:
    pass


async def run_deb(w, plan):
    from zigpy.datastructures import Debouncer

    d = Debouncer()
    objs = [Obj() for _ in range(plan["cfg"]["n"])]
    until = {}
    t0 = w.now
    for op in plan["ops"]:
        if t0 + op["at"] > w.now:
            await asyncio.sleep(t0 + op["at"] - w.now)
        o, i = objs[op["o"]], op["o"]
        end = until.get(i)
        if op["op"] == "clean":
            d.clean()
            continue
        got = bool(d.filter(o, op["win"]) if op["op"] == "filter" else d.is_filtered(o))
        w.log("deb", op["op"], i, got)
        if end is None or w.now > end + 1e-9:
            w.check(not got, "dropped-after-window", lambda: f"object {i} is filtered at {w.now - t0} although its window ended at {None if end is None else end - t0}")
        elif w.now < end - 1e-9:
            w.stats["filtered"] += 1
            w.check(got, "duplicate-processed", lambda: f"object {i} is not filtered at {w.now - t0} although its window lasts until {end - t0}")
        else:
            w.stats["boundary"] += 1
        if not got and op["op"] == "filter":
            if end is not None:
                w.stats["processed_again"] += 1
            until[i] = w.now + op["win"]
        w.state(sum(1 for e in until.values() if e > w.now), got)
    await asyncio.sleep(20)
    d.clean()
    for i, o in enumerate(objs):
        w.check(not d.is_filtered(o), "dropped-after-window", lambda: f"object {i} is filtered for ever")
    left = len(getattr(d, "_queue", ())) + len(getattr(d, "_times", ()))
    w.check(left == 0, "leak", lambda: f"{left} entries remain after every window ended")


PARTS = [Part("packets", 3, gen_packets, run_packets, max_steps=100_000), Part("debouncer", 1, gen_deb, run_deb, max_steps=100_000)]
