"""P10: no received packet can break the receiver."""
import asyncio

from scen import common, reqs
from sim import wire as W
from sim.runner import Part

PROPERTY = "P10"
LEVEL = "exploration"
RUNS = {"quick": 3500, "thorough": 150000}
BATCH = 40
REAL = ["ControllerApplication.packet_received and device lookup", "ZDO peeking", "Device.packet_received", "ZCL/ZDO header and payload parsing",
        "cluster and ZDO handlers", "interview", "requests"]
STUBS = ["radio and devices (struct-based codec)", "clock and scheduler"]
RULE = ("a run = ready, joining and unknown devices; 10..80 junk packets (random bytes, truncated, corrupted, extended and misaddressed "
        "frames of ~45 kinds, from every kind of address) interleaved with requests, valid reports and an interview; distinct = "
        "distinct sequence of junk classes and outcomes")
STATES = "(junk class, state of its sender, requests pending)"
PROBES = ["junk", "truncated", "random", "corrupted", "misaddressed", "unknown_sender", "joining_sender", "pending_sender", "collision",
          "reports", "ok"]
ASSUMPTIONS = ["a junk packet that is itself a valid announcement or attribute report may have that effect",
               "a malformed packet that carries the cluster, direction and number of a pending request's answer counts as its answer"]


def templates():
    """Valid frames: (zdo?, cluster, data); byte 0 (ZDO) or 1 (ZCL) is the
    sequence number."""
    ieee = W.u64(0x0BAD0BAD00000001)
    nwk = W.u16(0x7A7B)
    sd = W.simple_desc(1, 0x0104, 0x0100, 1, [0, 6], [3])
    T = b"\x21"
    z = [
        (W.DEVICE_ANNCE, nwk + ieee + b"\x8e"), (W.NWK_ADDR_REQ | W.RSP, b"\0" + ieee + nwk), (W.IEEE_ADDR_REQ | W.RSP, b"\0" + ieee + nwk),
        (W.IEEE_ADDR_REQ | W.RSP, b"\0" + ieee + nwk + bytes([2, 0]) + W.u16(1) + W.u16(2)),
        (W.NODE_DESC_REQ | W.RSP, b"\0" + nwk + W.node_desc(1, 0x8E, 0x1234)), (W.ACTIVE_EP_REQ | W.RSP, b"\0" + nwk + bytes([2, 1, 2])),
        (W.SIMPLE_DESC_REQ | W.RSP, b"\0" + nwk + sd), (W.MGMT_LQI_REQ | W.RSP, b"\0" + bytes([1, 0, 1]) + bytes(22)),
        (W.MGMT_RTG_REQ | W.RSP, b"\0" + bytes([1, 0, 1]) + bytes(5)), (W.MGMT_LEAVE_REQ | W.RSP, b"\0"), (W.MGMT_LEAVE_REQ, ieee + b"\0"),
        (W.MATCH_DESC_REQ, W.u16(0) + W.u16(0x0104) + bytes([1]) + W.u16(0x19) + b"\0"), (W.NWK_ADDR_REQ, ieee + b"\0\0"),
        (W.IEEE_ADDR_REQ, W.u16(0) + b"\0\0"), (W.MGMT_PERMIT_REQ, b"\x3c\0"), (0x001F, b"\x01" + ieee), (0x0021, ieee + bytes([1]) + W.u16(6) + b"\x03" + ieee + b"\x01"),
        (0x0021, ieee + bytes([1]) + W.u16(6) + b"\x01" + nwk), (0x0038, W.u32(0x07FFF800) + b"\x04\x01"), (0x8038, b"\0" + W.u32(0x07FFF800) + W.u16(1) + W.u16(1) + b"\x02\x10\x20"),
        (0x0012, nwk), (0x7777, b"\1\2\3"), (0x8777, b"\0\1\2"), (0x0003, nwk), (0x0013, nwk), (0x0016, ieee + bytes(30)), (0x8004, b"\x82" + nwk + b"\0"),
    ]
    lost = b"\x81" + W.u64(0x0BAD0BAD00000002) + W.u16(0x7A7C)
    gone = b"\x81" + W.u64(common.ieee_of(0)) + W.u16(0xFFFF)
    z += [(W.NWK_ADDR_REQ | W.RSP, lost), (W.IEEE_ADDR_REQ | W.RSP, lost), (W.NWK_ADDR_REQ | W.RSP, gone), (W.IEEE_ADDR_REQ | W.RSP, gone)]
    out = [(True, c, T + p) for c, p in z]
    A = W.u16

    def g(cl, cmd, pl, s2c=True, manuf=None, dr=True, spec=False):
        out.append((False, cl, W.Zcl(spec, s2c, 0x21, cmd, pl, manuf=manuf, disable_dr=dr).bytes()))

    g(6, W.REPORT, A(0x7A01) + b"\x20\x05" + A(0x7A02) + b"\x42" + W.lvstr("abc") + A(0x7A03) + b"\x21\x01\x02")
    g(6, W.REPORT, A(0x7A04) + b"\x48\x20" + A(2) + b"\1\2", dr=False)
    g(6, W.REPORT, A(0x7A05) + b"\x4c" + A(2) + b"\x20\x01\x42" + W.lvstr("x"))
    g(8, W.REPORT, A(0x7A06) + b"\x39\0\0\x80\x3f" + A(0x7A07) + b"\x44\x02\0ab" + A(0x7A08) + b"\x10\x01")
    g(0, W.REPORT, A(0x7A09) + b"\xf0" + bytes(8) + A(0x7A0A) + b"\xe2\1\2\3\4")
    g(6, W.REPORT, A(0x7A0B) + b"\x77\x01")
    g(6, W.READ_RSP, A(0x7A01) + b"\0\x20\1" + A(0x7A02) + b"\x86")
    g(6, W.READ_RSP, A(0x7A01) + b"\0\x43\xff\xff")
    g(6, W.READ, A(0) + A(1), s2c=False, dr=False)
    g(0x0A, W.READ, A(0) + A(1) + A(2) + A(7), s2c=False, dr=False)
    g(6, W.WRITE_RSP, b"\0")
    g(6, W.WRITE_RSP, b"\x86" + A(0x7A01))
    g(6, W.WRITE, A(0x7A01) + b"\x20\1", s2c=False, dr=False)
    g(6, W.CONF_REP_RSP, b"\x86\0" + A(0x7A01))
    g(6, W.CONF_REP, b"\0" + A(0x7A01) + b"\x20\0\0\1\0\1", s2c=False)
    g(6, W.DEFAULT_RSP, b"\2\0")
    g(6, W.DISC_RSP, b"\1" + A(0x7A01) + b"\x20")
    g(6, 0x42, b"\1\2", dr=False)
    g(6, 1, b"", s2c=False, spec=True, dr=False)
    g(6, 0x77, b"\1\2", s2c=False, spec=True, dr=False)
    g(4, 0, b"\0\1\0", spec=True)
    g(4, 2, b"\5\2\1\0\2\0", spec=True)
    g(0x19, 1, b"\0\x34\x12\1\0\5\0\0\0", s2c=False, spec=True, dr=False)
    g(0x19, 3, b"\0\x34\x12\1\0\5\0\0\0\0\0\0\0\x28", s2c=False, spec=True, dr=False)
    g(0x19, 6, b"\0\x34\x12\1\0\5\0\0\0", s2c=False, spec=True, dr=False)
    g(0x500, 0, b"\1\0\0\0\0\0", spec=True, dr=False)
    g(0x500, 1, b"\x15\0\0\0", spec=True, dr=False)
    g(6, W.REPORT, A(0x7A0C) + b"\x20\x05", manuf=0x115F)
    g(0xFC00, 3, b"\1\2\3", spec=True, manuf=0x115F)
    g(0x501, 0, b"\1\0\0", s2c=False, spec=True)
    g(5, 5, b"\0\0\1", spec=True)
    g(0x20, 0, b"", spec=True)
    for c in (0, 4, 5, 8, 0x0A, 0x19, 0x20, 0x500, 0x501):
        g(c, 0xF0, b"\1\2\3", s2c=False, spec=True, dr=False)
        g(c, 0xF1, b"", s2c=True, spec=True, dr=False)
        g(c, 0x43, b"\1", s2c=True, dr=False)
    g(0x500, 0, b"\0\1", s2c=False, spec=True, dr=False)
    for n, ty in enumerate([0, 0xFF, 0x08, 0x0F, 0x10, 0x18, 0x19, 0x20, 0x21, 0x22, 0x27, 0x28, 0x29, 0x30, 0x31, 0x38, 0x39, 0x3A, 0x41, 0x42, 0x43, 0x44,
                            0x48, 0x4C, 0x50, 0x51, 0xE0, 0xE1, 0xE2, 0xE8, 0xE9, 0xEA, 0xF0, 0xF1]):
        # known attributes with values of every type
        g((0, 6, 8)[n % 3], W.REPORT, A((n // 3) % 5) + bytes([ty]) + bytes([2, 0, 0x20, 0x31, 0x32, 0x33, 0x34, 0, 0, 0, 0, 0, 0, 0, 0, 0])[: n % 17])
        g((0, 6, 8)[n % 3], W.REPORT, A((n // 3) % 5) + bytes([ty]) + bytes(16)[: {0: 0, 0xFF: 0}.get(ty, n % 17)])
    return out


CLUSTERS = [0, 1, 4, 6, 8, 0x0A, 0x13, 0x19, 0x500, 0xFC00, 0x8000, 0x8001, 0x8005, 0x7777, 0xFFFF]
EPS = [0, 1, 2, 5, 240, 242, 255]
PROFILES = [0, 0x0104, 0xC05E, 0xA1E0, 0xFFFF]
SRC = ["d0", "d0", "d0", "d1", "join", "join", "coord", "unknown", "ieee", "ieee_unknown", "group", "bcast"]


def junk(rng, ndev):
    T = templates()
    k = rng.choice(["random", "truncated", "truncated", "truncated", "corrupted", "corrupted", "corrupted", "misaddressed", "misaddressed"])
    src = rng.choice(SRC)
    op = {"op": "junk", "kind": k, "src": src}
    if k == "random":
        data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 2, 3, 4, 8, 20, 100])))
        zdo = rng.random() < 0.4
        cl = rng.choice(CLUSTERS)
    else:
        zdo, cl, data = rng.choice(T)
        if k == "truncated":
            data = data[: rng.randrange(len(data))] if rng.random() < 0.9 else b""
        elif k == "corrupted":
            b = bytearray(data)
            for _ in range(rng.choice([1, 1, 2, 4])):
                i = rng.randrange(len(b)) if b else 0
                what = rng.choice(["set", "set", "ins", "del", "ff", "ext"])
                if what == "set" and b:
                    b[i] = rng.randrange(256)
                elif what == "ff" and b:
                    b[i] = 0xFF
                elif what == "ins":
                    b.insert(i, rng.randrange(256))
                elif what == "del" and b:
                    del b[i]
                else:
                    b += bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 60])))
            data = bytes(b)
    se, de = (0, 0) if zdo else (1, 1)
    prof = 0 if zdo else 0x0104
    if k == "misaddressed" or rng.random() < 0.15:
        what = rng.choice(["ep", "ep", "cluster", "profile", "all", "dst"])
        if what in ("ep", "all"):
            se, de = rng.choice(EPS), rng.choice(EPS)
        if what in ("cluster", "all"):
            cl = rng.choice(CLUSTERS)
        if what in ("profile", "all"):
            prof = rng.choice(PROFILES)
    op.update(src_ep=se, dst_ep=de, profile=prof, cluster=cl, data=data.hex(), dst=rng.choice(["nwk", "nwk", "nwk", "group", "bcast", "ieee"]),
              route=rng.choice([None, None, None, None, [1], [1, 2]]))
    return op


def generate(rng, tier):
    ndev = rng.choice([1, 2])
    devs = [reqs.spec(rng, rng.choice([1, 1, 2])) for _ in range(2)]
    for d in devs:
        d["eps"]["1"]["ins"] += [5, 8, 0x20, 0x500, 0x501, 0xFC00]
        d["eps"]["1"]["outs"] += [0x0A, 0x501, 0x500]
    join = {"logical": rng.choice([1, 2]), "eps": {"1": {"ins": [0, 6], "outs": [0x19], "attrs": common.basic_attrs()},
                                                  "2": {"ins": [0, 8], "outs": []}}}
    ops = []
    span = rng.choice([2, 10, 40])
    for _ in range(rng.choice([10, 20, 40, 80])):
        ops.append({**junk(rng, ndev), "at": round(rng.uniform(0, span), 2)})
    kinds = ["read", "view", "cmd", "nd", "lqi", "write", "disc", "aep", "reads"]
    for i in range(rng.choice([0, 3, 8, 16])):
        ops.append({"op": "req", "id": i, "dev": rng.randrange(2), "at": round(rng.uniform(0, span), 2), "kind": rng.choice(kinds), "ep": 1})
    for i in range(rng.choice([0, 3, 8])):
        ops.append({"op": "report", "dev": rng.randrange(2), "at": round(rng.uniform(0, span), 2), "v": 1000 + i})
    if rng.random() < 0.8:
        ops.append({"op": "announce", "at": round(rng.uniform(0, span / 2), 2)})
    return {"cfg": {"devs": devs, "join": join, "collide": rng.random() < 0.25, "lat": rng.choice([[0, 0], [0, 0.5], [0.25, 2.0]]),
                    "send_lat": [0, 0.25], "stall_p": 0, "tsn0": rng.choice([0, 30, 250]),
                    "year": rng.choice([0] * 6 + [1970, 1999, 2100]), "echo": rng.choice([0, 0, 0.2, 0.6])}, "ops": ops}


def introduces(op, data):
    """(ieee, nwk) a packet validly announces, if any."""
    if 0 not in (op["src_ep"], op["dst_ep"]) or op["cluster"] not in (W.DEVICE_ANNCE, W.NWK_ADDR_REQ | W.RSP, W.IEEE_ADDR_REQ | W.RSP):
        return None
    b = W.Buf(data)
    try:
        b.u8()
        if op["cluster"] == W.DEVICE_ANNCE:
            nwk, ieee = b.u16(), b.u64()
        else:
            status = b.u8()
            ieee, nwk = b.u64(), b.u16()
            if status:
                return None
    except ValueError:
        return None
    return ieee, nwk


async def run(w, plan):
    from sim import radio as R

    t = R.t
    cfg = plan["cfg"]
    radio = R.SimRadio(w, cfg)
    if cfg["year"]:
        w.wall_skew = (cfg["year"] - 2024) * 31556952.0
        w.stats["fault_wrong_clock"] += 1
    app = await R.start_app(w, radio)
    nonces = reqs.Nonces(w, radio, 0)
    sims, devs = [], []
    for i, s in enumerate(cfg["devs"]):
        d = radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), s, f"d{i}"))
        nonces.install(d)
        sims.append(d)
        devs.append(common.ready_device(app, d, R))
        for _ in range(cfg["tsn0"]):
            devs[-1].get_sequence()
    join = radio.add(R.SimDevice(w, common.ieee_of(5), common.nwk_of(5), cfg["join"], "join"))
    known = {d.ieee for d in radio.devices.values()}
    phantoms = set()
    known_nwk = {d.nwk for d in radio.devices.values()}
    collided = set()  # sequence numbers junk has used, per device
    windows = {}
    events = []

    class L:
        def __init__(self, dev, key):
            self.dev, self.key = dev, key

        def attribute_updated(self, attrid, value, *_):
            events.append((self.dev, self.key, int(attrid), value))
            ok = int(attrid) in windows.get(self.dev, ())
            w.check(ok, "attribute-from-nowhere", lambda: f"{self.dev} {self.key}: attribute {attrid:#06x} = {value!r} was in no packet")

    for i, dev in enumerate(devs):
        for ep in dev.non_zdo_endpoints:
            for c in ep.clusters:
                c.add_listener(L(f"d{i}", (ep.endpoint_id, int(c.cluster_id), c.is_server)))

    def win(name, data):
        windows.setdefault(name, set()).update(data[i] | data[i + 1] << 8 for i in range(len(data) - 1))

    def on_rx(rx):
        if rx.dev is not None:
            win(rx.dev.name, rx.data)

    radio.on_rx.append(on_rx)
    last_tsn = {}  # device name -> {tsn: time sent}

    def on_tx(tx):
        d = radio.by_nwk(int(tx.dst)) if tx.dst_mode == t.AddrMode.NWK else None
        if d is not None and tx.data:
            tsn = tx.data[0] if tx.dst_ep == 0 else tx.data[3 if tx.data[0] & 4 else 1]
            last_tsn.setdefault(d.name, {})[tsn] = w.now
            tx.tag = reqs_by_task.get(asyncio.current_task())

    reqs_by_task = {}
    radio.on_tx.append(on_tx)
    deliver = radio.deliver

    def with_echo(dev, src_nwk, src_ep, dst_ep, profile, cluster, data, req=None, **kw):
        # a mangled copy follows an answer at the same instant
        rx = deliver(dev, src_nwk, src_ep, dst_ep, profile, cluster, data, req, **kw)
        if req is not None and w.dec.chance("echo", cfg.get("echo", 0)):
            cut = w.dec.pick("echo.cut", len(data) + 1)
            w.stats["fault_mangled_copy"] += 1
            deliver(dev, src_nwk, src_ep, dst_ep, profile, cluster, data[:cut] if cut < len(data) else data + b"\xff\x00", None)
        return rx

    radio.deliver = with_echo

    def pending(name):
        return {s for s, at in last_tsn.get(name, {}).items() if w.now - at < 60}

    def do_junk(op):
        data = bytes.fromhex(op["data"])
        src = op["src"]
        sim = {"d0": sims[0], "d1": sims[1], "join": join, "coord": radio.coord, "ieee": sims[0]}.get(src)
        name = sim.name if sim else src
        if W.u16(0x4001) in data:
            return
        pos = 0 if op["dst_ep"] == 0 else (3 if data[:1] and data[0] & 4 else 1)
        pend = pending(name) if sim else set()
        if pend:
            w.stats["pending_sender"] += 1
        if len(data) > pos:
            if cfg["collide"]:
                if pend and w.dec.chance("collide", 0.7):
                    data = data[:pos] + bytes([sorted(pend)[w.dec.pick("which", len(pend))]]) + data[pos + 1:]
            else:
                n = 0
                while data[pos] in pend and n < 256:
                    data = data[:pos] + bytes([(data[pos] + 17) & 0xFF]) + data[pos + 1:]
                    n += 1
            if data[pos] in pend:
                w.stats["collision"] += 1
                collided.add(name)
        intro = introduces(op, data)
        if intro is not None:
            if intro[0] in known or intro[1] in known_nwk:
                return
            phantoms.add(intro[0])
        if op["src"] in ("d0", "d1", "ieee") and not app.get_device(ieee=R.eui(sim.ieee)).is_initialized:
            w.violate("device-broken", f"{name} is no longer initialized")
        mode = {"ieee": t.AddrMode.IEEE, "ieee_unknown": t.AddrMode.IEEE, "group": t.AddrMode.Group, "bcast": t.AddrMode.Broadcast}.get(src, t.AddrMode.NWK)
        addr = {t.AddrMode.IEEE: R.eui(sim.ieee) if sim else R.eui(0x0BAD0000), t.AddrMode.Group: t.Group(0x1234),
                t.AddrMode.Broadcast: t.BroadcastAddress.ALL_DEVICES, t.AddrMode.NWK: t.NWK(sim.nwk if sim else 0x7654)}[mode]
        dst = {"nwk": t.AddrModeAddress(t.AddrMode.NWK, t.NWK(0)), "group": t.AddrModeAddress(t.AddrMode.Group, t.Group(1)),
               "bcast": t.AddrModeAddress(t.AddrMode.Broadcast, t.BroadcastAddress.ALL_DEVICES),
               "ieee": t.AddrModeAddress(t.AddrMode.IEEE, R.eui(R.COORD_IEEE))}[op["dst"]]
        p = t.ZigbeePacket(src=t.AddrModeAddress(mode, addr), src_ep=t.uint8_t(op["src_ep"]), dst=dst, dst_ep=t.uint8_t(op["dst_ep"]),
                           profile_id=t.uint16_t(op["profile"]), cluster_id=t.uint16_t(op["cluster"]), data=t.SerializableBytes(data),
                           source_route=None if op["route"] is None else [t.NWK(x) for x in op["route"]])
        w.stats["junk"] += 1
        w.stats["fault_" + op["kind"]] += 1
        w.stats[op["kind"]] += 1
        if src in ("unknown", "ieee_unknown", "group", "bcast"):
            w.stats["unknown_sender"] += 1
        if src == "join" and not joined():
            w.stats["joining_sender"] += 1
        w.state(op["kind"], src, bool(pend), joined())
        radio.deliver(sim, int(addr) if mode == t.AddrMode.NWK else 0, op["src_ep"], op["dst_ep"], op["profile"], op["cluster"], data, packet=p)

    def joined():
        try:
            return app.get_device(ieee=R.eui(join.ieee)).is_initialized
        except KeyError:
            return False

    async def req(op):
        dev = devs[op["dev"]]
        name = f"d{op['dev']}"
        me = asyncio.current_task()
        reqs_by_task[me] = op["id"]
        res = err = None
        try:
            res = await reqs.call(dev, op, R)
        except (asyncio.TimeoutError, R.zigpy.exceptions.ZigbeeException) as e:
            err = e
        finally:
            reqs_by_task.pop(me, None)
        if name in collided:
            return
        w.check(err is None, "request-failed", lambda: f"request {op['id']} ({op['kind']} to {name}) failed with {err!r} although only junk interfered")
        if err is not None:
            return
        tx = next(x for x in radio.txs if x.tag == op["id"])
        want = next((v for (n, _), v in nonces.expect.items() if n == tx.n), None)
        try:
            got = reqs.result_value(op["kind"], res)
        except Exception as e:  # noqa: BLE001
            got = repr(e)
        w.stats["ok"] += 1
        w.check(got == want, "wrong-answer", lambda: f"request {op['id']} ({op['kind']} to {name}) returned {got!r}, the device answered {want!r}")

    async def one(op):
        await asyncio.sleep(op["at"])
        if op["op"] == "junk":
            do_junk(op)
        elif op["op"] == "announce":
            join.announce()
        elif op["op"] == "report":
            report(op["dev"], op["v"])
        else:
            await req(op)

    def report(i, v):
        n0 = len(events)
        tsn = 7
        while tsn in pending(f"d{i}"):
            tsn = (tsn + 1) & 0xFF
        f = W.Zcl(False, True, tsn, W.REPORT, W.u16(0x4001) + b"\x21" + W.u16(v))
        radio.deliver(sims[i], sims[i].nwk, 1, 1, 0x0104, 6, f.bytes())
        new = events[n0:]
        w.stats["reports"] += 1
        w.check(new == [(f"d{i}", (1, 6, True), 0x4001, v)] and devs[i].endpoints[1].in_clusters[6].get(0x4001) == v, "report-lost",
                lambda: f"report of value {v} by d{i} caused {new}")

    tasks = [asyncio.create_task(one(op)) for op in plan["ops"]]
    if tasks:
        done, pend = await asyncio.wait(tasks, timeout=2000)
        w.check(not pend, "request-never-ended", lambda: f"{len(pend)} operations still wait")
        for d in done:
            d.result()
    # ---- the aftermath
    await asyncio.sleep(90)
    for i, dev in enumerate(devs):
        name = f"d{i}"
        w.check(app.devices.get(R.eui(sims[i].ieee)) is dev and dev.is_initialized and dev.nwk == sims[i].nwk, "device-broken",
                lambda: f"{name}: {app.devices.get(R.eui(sims[i].ieee))!r}")
        eps = {e: (sorted(map(int, dev.endpoints[e].in_clusters)), sorted(map(int, dev.endpoints[e].out_clusters)))
               for e in dev.endpoints if e}
        want = {e: (sorted(x["ins"]), sorted(x["outs"])) for e, x in sims[i].eps.items()}
        w.check(eps == want, "endpoints-changed", lambda: f"{name}: {eps} instead of {want}")
        collided.discard(name)
        report(i, 50000)
        for j, k in enumerate(("view", "nd", "read")):
            op = {"op": "req", "id": 900 + 10 * i + j, "dev": i, "kind": k, "ep": 1}
            await asyncio.wait_for(req(op), 100)
    for ieee in app.devices:
        v = int.from_bytes(ieee.serialize(), "little")
        w.check(v in known or v in phantoms, "device-from-nowhere", lambda: f"{ieee} is in app.devices but was never announced")
    w.check(not app.groups, "group-from-nowhere", lambda: f"{dict(app.groups)}")
    announced = any(op["op"] == "announce" for op in plan["ops"])
    if announced:
        for _ in range(3):
            if joined():
                break
            join.announce()
            await asyncio.sleep(120)
        w.check(joined(), "join-never-completes", lambda: "the joining device is not initialized although it announced itself again after the junk ended")
        dev = app.get_device(ieee=R.eui(join.ieee))
        if joined() and "join" not in collided:
            eps = {e: (sorted(map(int, dev.endpoints[e].in_clusters)), sorted(map(int, dev.endpoints[e].out_clusters))) for e in dev.endpoints if e}
            want = {e: (sorted(x["ins"]), sorted(x["outs"])) for e, x in join.eps.items()}
            w.check(eps == want, "interview-disturbed", lambda: f"{eps} instead of {want}")
    w.sample = {"ops": plan["ops"][:4]}


PARTS = [Part("junk", 1, generate, run, max_steps=300_000)]
