"""P22: devices are tracked by IEEE address across network address changes."""
import asyncio
import contextvars

from scen import common
from sim import wire as W
from sim.core import HarnessError
from sim.runner import Part

PROPERTY = "P22"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 300000}
BATCH = 50
REAL = ["zigpy.application join, lookup, discovery, relays and source routes", "zigpy.device", "zigpy.zdo", "interviews", "device and relay tables of zigpy.appdb on SQLite"]
STUBS = ["radio and devices", "clock and scheduler", "SQLite worker thread"]
RULE = ("a run = 1..4 devices and 10..60 operations (announcements, silent or announced address changes, address responses of the device itself or others, truncated "
        "or failed ones, traffic by network or IEEE address, relay lists, requests by network or IEEE address, look-alike packets, new devices, restarts) under lossy "
        "radios; distinct = distinct sequence of packets and events")
STATES = "(known devices, initialized devices, unknown senders, kind of packet) at each packet"
PROBES = ["joined", "moved", "reannounced", "unknown_packet", "unknown_relays", "lookups", "requests", "ieee_requests", "routed", "unrouted", "restarts", "short", "failed_rsp",
          "third_party", "decoy", "reused_address", "ieee_sender", "converged", "stale_traffic", "moved_in_flight"]
ASSUMPTIONS = ["no two devices known at the same time have the same network address (zigpy finds the first of them)"]

CUR = contextvars.ContextVar("op", default=None)


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    devs = [common.device_spec(rng, simple=rng.random() < 0.7) for _ in range(n)]
    net = common.net(rng)
    for k in ("send_err_delivered", "send_timeout"):
        net["rates"].pop(k, None)
    ops = []
    for _ in range(rng.choice([10, 20, 40, 60])):
        k = rng.choice(["announce"] * 4 + ["move"] * 4 + ["smove"] * 3 + ["traffic"] * 6 + ["self_rsp", "self_rsp", "third", "third", "relays", "relays", "relays", "req", "req", "req", "req", "ireq",
                        "relays0", "decoy", "short", "failed", "join_api", "restart", "settle", "settle", "isender", "offline", "stale"])
        op = {"op": k, "d": rng.randrange(n), "o": rng.randrange(n), "dt": rng.choice([0, 0, 0, 0.25, 1, 4, 12]), "n": rng.randrange(1000)}
        if k in ("move", "smove"):
            op["reuse"] = rng.random() < 0.3
        if k in ("relays", "relays0"):
            op["list"] = [rng.choice([0, 0x1111, 0x2222, 0x3333, 0x4444, 0x5555]) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        if k in ("self_rsp", "third", "failed", "short"):
            op["cmd"] = rng.choice([W.NWK_ADDR_REQ, W.IEEE_ADDR_REQ])
        ops.append(op)
    return {"cfg": {"devs": devs, "net": net, "db_delay": rng.choice([0, 0, 0.01]), "sr": rng.random() < 0.7, "pre": rng.random() < 0.8, "parallel": rng.random() < 0.6}, "ops": ops}


async def run(w, plan):
    from sim import radio as R, storage
    import zigpy.config as conf
    t = R.t

    cfg = plan["cfg"]
    radio = R.SimRadio(w, cfg["net"])
    storage.attach(w, delay=cfg["db_delay"])
    dbconf = R.base_config(**{conf.CONF_DATABASE: f"{w.scratch}/z.db", conf.CONF_SOURCE_ROUTING: cfg["sr"]})
    sims = [radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), s, f"d{i}")) for i, s in enumerate(cfg["devs"])]
    for d in sims:
        d.eui = R.eui(d.ieee)
        d.past = []
    coord = R.eui(R.COORD_IEEE)
    st = {"app": None, "n": 0, "gen": 0, "retired": {}}
    known, relays, inited, early = {}, {}, set(), set()
    want_joined, got_joined, want_msg, got_msg, submitted = [], [], [], [], []
    unknown, lookups = [], []
    moved_from = {}

    class L:
        def __init__(self, gen):
            self.gen = gen

        def live(self):
            return self.gen == st["gen"] and st["app"] is not None

        def device_joined(self, dev):
            if self.live():
                got_joined.append((dev.ieee, int(dev.nwk)))
                w.log("joined", str(dev.ieee), int(dev.nwk))
                w.check(st["app"].devices.get(dev.ieee) is dev, "joined-object", "the announced device is not the registered one")

        def handle_message(self, dev, profile, cluster, src_ep, dst_ep, data):
            if self.live():
                got_msg.append((dev.ieee, int(cluster), data))

        def device_initialized(self, dev):
            if self.live():
                inited.add(dev.ieee)

    # ---- the model
    def m_join(nwk, ieee, why):
        if ieee not in known:
            known[ieee] = nwk
            want_joined.append((ieee, nwk))
            w.stats["joined"] += 1
        elif known[ieee] != nwk:
            moved_from[known[ieee]] = ieee
            if any(x.get("ieee") == ieee for x in live_ops.values()):
                w.stats["moved_in_flight"] += 1
            known[ieee] = nwk
            want_joined.append((ieee, nwk))
            w.stats["moved"] += 1
        else:
            w.stats["reannounced"] += 1

    def on_rx(rx):
        d = bytes(rx.data)
        src_ieee = st.pop("by_ieee", None)
        if 0 in (rx.src_ep, rx.dst_ep):
            if rx.cluster == W.DEVICE_ANNCE and len(d) >= 12:
                b = W.Buf(d[1:])
                nwk = b.u16()
                m_join(nwk, R.eui(b.u64()), "annce")
            elif rx.cluster in (W.NWK_ADDR_REQ | W.RSP, W.IEEE_ADDR_REQ | W.RSP) and len(d) >= 12 and d[1] == 0:
                b = W.Buf(d[2:])
                ieee = R.eui(b.u64())
                m_join(b.u16(), ieee, "rsp")
        if src_ieee is not None:
            who = src_ieee if src_ieee in known else None
        else:
            who = next((i for i, n in known.items() if n == rx.src_nwk), None)
        w.state(len(known), len(inited), len(unknown), rx.cluster)
        if who is None:
            if src_ieee is None:
                w.stats["unknown_packet"] += 1
                unknown.append((w.now, rx.src_nwk))
        else:
            want_msg.append((who, int(rx.cluster), d))

    live_ops = {}

    def on_submit(packet):
        if packet.dst.addr_mode == t.AddrMode.NWK:
            nwk = int(packet.dst.address)
            ieee = next((i for i, n in known.items() if n == nwk), None)
            if ieee is None:
                old = moved_from.get(nwk)
                w.violate("stale-destination", f"a packet for cluster {int(packet.cluster_id):#06x} goes to {nwk:#06x}, " + (f"which {old} left for {known.get(old)}" if old else "which nobody has"))
                return
        elif packet.dst.addr_mode == t.AddrMode.IEEE:
            ieee = packet.dst.address
            w.stats["ieee_requests"] += 1
            w.check(ieee in known, "unknown-destination", lambda: str(ieee))
        else:
            return
        info = CUR.get()
        if info is not None and int(packet.cluster_id) == W.POWER_DESC_REQ:
            w.check(info["ieee"] == ieee, "wrong-destination", lambda: f"the request for {info['ieee']} went to {ieee}")
            w.check((packet.dst.addr_mode == t.AddrMode.IEEE) == info["by_ieee"], "address-mode", lambda: str(packet.dst))
            w.check(packet.src.address == (coord if info["by_ieee"] else 0), "source-address", lambda: str(packet.src))
        route = None if packet.source_route is None else [int(x) for x in packet.source_route]
        want = relays[ieee][::-1] if cfg["sr"] and relays.get(ieee) is not None else None
        w.stats["unrouted" if route is None else "routed"] += 1
        w.check(route == want, "source-route", lambda: f"to {ieee}: {route}, last relays are {relays.get(ieee)}")

    def on_tx(tx):
        if tx.dst_mode == t.AddrMode.Broadcast and int(tx.cluster) == W.IEEE_ADDR_REQ:
            b = W.Buf(tx.data[1:])
            lookups.append((w.now, b.u16()))
            w.stats["lookups"] += 1
            w.check(int(tx.dst) >= 0xFFF8 and b.u8() == 0, "lookup", lambda: tx.data.hex())

    radio.on_rx.append(on_rx)
    radio.on_tx.append(on_tx)
    radio.on_submit.append(on_submit)

    def quiet():
        app = st["app"]
        if app is None:
            return
        if got_joined != want_joined:
            if sorted(map(repr, got_joined)) != sorted(map(repr, want_joined)):
                w.violate("join-events", f"announced {got_joined} instead of {want_joined}")
        got_joined.clear()
        want_joined.clear()
        if sorted(map(repr, got_msg)) != sorted(map(repr, want_msg)):
            w.violate("attribution", f"packets were attributed to {[x[0] for x in got_msg]} instead of {[x[0] for x in want_msg]}")
        got_msg.clear()
        want_msg.clear()
        have = {i: int(dv.nwk) for i, dv in app.devices.items()}
        if have != known:
            w.violate("addresses", f"zigpy has { {str(i): hex(n) for i, n in have.items()} }, told { {str(i): hex(n) for i, n in known.items()} }")
            known.clear()
            known.update(have)
        for i, dv in app.devices.items():
            w.check(dv.ieee == i, "device-key", lambda: f"{i} {dv.ieee}")
            r = None if dv.relays is None else [int(x) for x in dv.relays]
            w.check(r == relays.get(i), "relays", lambda: f"{i}: {r} instead of {relays.get(i)}")
            try:
                w.check(app.get_device(nwk=dv.nwk) is dv and app.get_device(ieee=i) is dv, "lookup-object", lambda: f"{i} {dv.nwk}")
            except KeyError:
                w.violate("lookup-object", f"{i} cannot be found at {dv.nwk}")
        # unknown senders are looked up
        while unknown and w.now - unknown[0][0] > 1.0:
            t0, nwk = unknown.pop(0)
            m = next((x for x in lookups if x[1] == nwk and x[0] >= t0), None)
            if m is None:
                w.violate("not-looked-up", f"nobody was asked who {nwk:#06x} is")
            else:
                lookups.remove(m)
        for t0, nwk in lookups:
            w.check(any(u[1] == nwk for u in unknown), "lookup-invented", lambda: f"who is {nwk:#06x} was asked for no reason")
        if not unknown:
            lookups.clear()

    async def boot():
        app = R.SimApp(dbconf)
        app.sim_radio = radio
        await app._load_db()
        st["gen"] += 1
        app.add_listener(L(st["gen"]))
        have = {i: int(dv.nwk) for i, dv in app.devices.items()}
        if st["gen"] > 1:
            want = {i: n for i, n in known.items() if i in inited or i == coord}
            for i, nwk in have.items():
                w.check(known.get(i) == nwk, "stored-address", lambda: f"{i} is loaded with {nwk:#06x}, it last had {known.get(i)}")
            w.check(set(want) <= set(have), "device-lost", lambda: f"{set(want) - set(have)} not loaded")
            for i, dv in app.devices.items():
                r = None if dv.relays is None else [int(x) for x in dv.relays]
                if i in early or i == coord:
                    relays[i] = r
                w.check(r == relays.get(i), "stored-relays", lambda: f"{i}: {r} instead of {relays.get(i)}")
        inited.clear()
        inited.update(i for i, dv in app.devices.items() if dv.is_initialized)
        early.clear()
        for i in list(relays):
            if i not in have:
                relays.pop(i)
        known.clear()
        known.update(have)
        known[coord] = 0
        await app.startup()
        inited.update(i for i, dv in app.devices.items() if dv.is_initialized)
        for x in (got_joined, want_joined, got_msg, want_msg, unknown, lookups):
            x.clear()
        st["app"] = app
        return app

    def fresh(d, reuse):
        used = {x.nwk for x in sims} | set(known.values())
        if reuse:
            for n, when in st["retired"].items():
                if n not in used and w.now - when > 40:
                    w.stats["reused_address"] += 1
                    return n
        st["n"] += 1
        return 0x5000 + st["n"] * 0x13

    app = await boot()
    w.on_quiet = quiet
    if cfg["pre"]:
        radio.faults_on = False
        for d in sims:
            d.announce(lossy=False)
        await asyncio.sleep(60)
        for d in sims:
            if d.eui not in app.devices or not app.devices[d.eui].is_initialized:
                w.violate("not-joined", f"{d.name} joined over a perfect radio and is not interviewed")
        radio.faults_on = True

    def addr_rsp(d, about, cmd, status=0, cut=None, nwk=None):
        d.send_zdo(cmd | W.RSP, (W.u8(status) + W.u64(about.ieee) + W.u16(about.nwk if nwk is None else nwk))[:cut])

    def report(d, nwk=None, via_ieee=False):
        ep = min(d.eps)
        cl = d.eps[ep]["ins"][-1]
        st["n"] += 1
        f = W.Zcl(False, True, d.next_tsn(), W.REPORT, W.u16(0xF100) + b"\x23" + W.u32(st["n"]))
        if nwk is not None:
            radio.deliver(d, nwk, ep, 1, d.eps[ep]["profile"], cl, f.bytes())
        elif via_ieee:
            st["by_ieee"] = d.eui
            pk = t.ZigbeePacket(src=t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=d.eui), src_ep=t.uint8_t(ep), dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)),
                                dst_ep=t.uint8_t(1), profile_id=t.uint16_t(d.eps[ep]["profile"]), cluster_id=t.uint16_t(cl), data=t.SerializableBytes(f.bytes()))
            w.stats["ieee_sender"] += 1
            radio.deliver(d, d.nwk, ep, 1, d.eps[ep]["profile"], cl, f.bytes(), packet=pk)
        else:
            radio.reply(d, ep, 1, d.eps[ep]["profile"], cl, f.bytes())

    n_op = 0
    for op in plan["ops"]:
        n_op += 1
        await asyncio.sleep(op["dt"] + 0.0001 * n_op)
        app, d, k = st["app"], sims[op["d"]], op["op"]
        dev = app.devices.get(d.eui)
        w.log("op", k, d.name)
        if k == "announce":
            d.announce()
        elif k in ("move", "smove"):
            d.past.append(d.nwk)
            st["retired"][d.nwk] = w.now
            d.nwk = fresh(d, op["reuse"])
            if k == "move":
                d.announce()
            else:
                report(d)
        elif k == "traffic":
            report(d)
        elif k == "stale":
            # packets from before the move may still arrive
            if d.past and d.past[-1] not in [x.nwk for x in sims]:
                w.stats["stale_traffic"] += 1
                report(d, nwk=d.past[-1])
        elif k == "isender":
            report(d, via_ieee=True)
        elif k == "self_rsp":
            addr_rsp(d, d, op["cmd"])
        elif k == "third":
            w.stats["third_party"] += 1
            addr_rsp(sims[op["o"]], d, op["cmd"])
        elif k == "failed":
            w.stats["failed_rsp"] += 1
            addr_rsp(sims[op["o"]], d, op["cmd"], status=[0x81, 0x80, 0x84, 0x82, 0x8A, 0x8C, 0x8D][op["n"] % 7], nwk=0x7777)
        elif k == "short":
            w.stats["short"] += 1
            if op["n"] % 2:
                addr_rsp(sims[op["o"]], d, op["cmd"], cut=1 + op["n"] % 10, nwk=0x7777)
            else:
                d.send_zdo(W.DEVICE_ANNCE, (W.u16(0x7777) + W.u64(d.ieee) + W.u8(0x80))[: 1 + op["n"] % 10])
        elif k == "decoy":
            # the same bytes on an application endpoint mean nothing
            w.stats["decoy"] += 1
            ep = min(d.eps)
            cl, body = [(W.DEVICE_ANNCE, W.u16(0x7777) + W.u64(sims[op["o"]].ieee) + W.u8(0x80)), (W.NWK_ADDR_REQ | W.RSP, W.u8(0) + W.u64(sims[op["o"]].ieee) + W.u16(0x7777))][op["n"] % 2]
            radio.reply(d, ep, 1, 0x0104, cl, W.u8(d.next_tsn()) + body)
        elif k in ("relays", "relays0"):
            nwk = d.nwk if k == "relays" else 0x6001 + op["n"]
            ieee = next((i for i, x in known.items() if x == nwk), None)
            if ieee is None:
                unknown.append((w.now, nwk))
                w.stats["unknown_relays"] += 1
            else:
                r = []
                for x in op["list"]:
                    if x and x not in r:
                        r.append(x)
                relays[ieee] = r
                if ieee not in inited:
                    early.add(ieee)
                else:
                    early.discard(ieee)
            app.handle_relays(t.NWK(nwk), [t.NWK(x) for x in op["list"]])
        elif k == "join_api":
            m_join(d.nwk, d.eui, "api")
            app.handle_join(t.NWK(d.nwk), d.eui, t.NWK(0))
        elif k in ("req", "ireq"):
            if dev is None:
                continue
            info = {"ieee": d.eui, "by_ieee": k == "ireq"}
            w.stats["requests"] += 1

            async def call(dev=dev, info=info):
                CUR.set(info)
                try:
                    await dev.zdo.Power_Desc_req(dev.nwk, use_ieee=info["by_ieee"])
                except Exception:  # noqa: BLE001
                    pass

            task = asyncio.create_task(call())
            live_ops[task] = info
            task.add_done_callback(lambda tk: live_ops.pop(tk, None))
        elif k == "offline":
            d.online = False
            w.loop.call_later(4.0177, setattr, d, "online", True)
            w.stats["fault_offline"] += 1
        elif k == "settle":
            await asyncio.sleep(25.0037)
        elif k == "restart":
            for task in list(live_ops):
                task.cancel()
            await asyncio.sleep(0.0131)
            quiet()
            st["app"] = None
            for dv in app.devices.values():
                dv.cancel_initialization()
                scan = getattr(dv, "_group_scan_task", None)
                if scan is not None:
                    scan.cancel()
            await app.shutdown()
            await asyncio.sleep(100.0131)
            w.stats["restarts"] += 1
            app = await boot()
        else:
            raise HarnessError(k)
    # convergence: once the radio works, every device that talks is found and interviewed
    await asyncio.sleep(60.0017)
    radio.faults_on = False
    for d in sims:
        d.online = True
    for _ in range(3):
        for d in sims:
            report(d)
        await asyncio.sleep(120.0017)
    app = st["app"]
    quiet()
    for d in sims:
        dv = app.devices.get(d.eui)
        w.check(dv is not None and int(dv.nwk) == d.nwk, "not-found", lambda: f"{d.name} at {d.nwk:#06x} is {dv}")
        if dv is not None:
            w.check(dv.is_initialized and {e for e in dv.endpoints if e} == set(d.eps), "not-interviewed", lambda: f"{d.name}: {dv.status} {list(dv.endpoints)}")
            w.stats["converged"] += 1
    w.on_quiet = None
    st["app"] = None
    await app.shutdown()
    w.sample = {"known": {str(i): n for i, n in known.items()}, "ops": len(plan["ops"])}


PARTS = [Part("addresses", 1, generate, run, max_steps=600_000)]
