"""P17: topology scans."""
import asyncio
import contextvars

from scen import common
from sim import wire as W
from sim.core import HarnessError
from sim.runner import Part

PROPERTY = "P17"
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 300000}
BATCH = 50
REAL = ["zigpy.topology", "zigpy.zdo requests", "zigpy.device request queue", "zigpy.application lookups and joins", "interviews of the devices found"]
STUBS = ["radio and devices", "clock and scheduler"]
RULE = ("a run = 1..5 known routers and end devices, hidden devices named in tables, 5..25 operations (manual scans of all or some devices, cancelled callers, starting and stopping "
        "periodic scans, table changes, offline routers, devices removed or added) under a lossy radio; distinct = distinct sequence of packets and events")
STATES = "(manual scans live, loop running, unsupported tables, known devices) at each table request"
PROBES = ["manual", "manual_done", "replaced", "caller_cancelled", "loop_scans", "loop_cancelled", "stopped", "stopped_mid_scan", "restarted_loop", "exact_tables", "kept_tables", "unsupported",
          "looked_up", "found", "removed", "removed_mid_scan", "added", "table_changed", "multi_page", "garbled", "inactive_filtered", "invalid_filtered", "subset", "bcast_failed"]
ASSUMPTIONS = ["routers answer table requests with the entries following the requested start index"]

CUR = contextvars.ContextVar("scan", default=None)
SLACK = 60.0
LQI, RTG = W.MGMT_LQI_REQ, W.MGMT_RTG_REQ


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4, 5])
    hidden = rng.choice([0, 0, 1, 2])
    devs = []
    for i in range(n + hidden):
        s = common.device_spec(rng, logical=rng.choice([1, 1, 1, 2]), simple=True)
        s["pages"] = rng.choice([[3], [1], [2, 5], [20], [1, 0x40], [3, 1, 2]])
        s["mode"] = rng.choice(["ok"] * 9 + ["unsup_lqi", "unsup_rtg", "unsup", "garbled", "silent", "late_unsup", "claim"])
        s["bare"] = rng.random() < 0.12 and i < n
        devs.append(s)
    cnt = [0]

    def table():
        nb = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
            x = rng.randrange(100)
            who = ["dev", rng.randrange(n + hidden)] if x < 60 else ["phantom", rng.randrange(3)] if x < 75 else ["zero"] if x < 82 else ["ones"] if x < 88 else ["coord"] if x < 96 else ["dup"]
            cnt[0] += 1
            nb.append([who, rng.randrange(256), rng.randrange(4), rng.randrange(256), cnt[0] % 256])
        rt = []
        for _ in range(rng.choice([0, 1, 2, 4, 7])):
            rt.append([rng.choice([0, 0, 0, 1, 2, 3, 3, 4]) | (rng.randrange(32) << 3), ["dev", rng.randrange(n + hidden)] if rng.random() < 0.8 else ["phantom", rng.randrange(3)],
                       ["dev", rng.randrange(n + hidden)] if rng.random() < 0.8 else ["phantom", rng.randrange(3)]])
        return [nb, rt]

    ops = []
    for _ in range(rng.choice([5, 10, 15, 25])):
        k = rng.choice(["manual"] * 6 + ["subset", "subset", "cancel", "cancel", "start", "start", "stop", "tables", "tables", "offline", "remove", "add", "wait", "wait", "wait"])
        op = {"op": k, "d": rng.randrange(n + hidden), "dt": rng.choice([0, 0, 1, 2, 5, 20, 60])}
        if k == "start":
            op["period"] = rng.choice([90, 150, 300])
        if k == "subset":
            op["which"] = sorted(rng.sample(range(n + hidden + 1), rng.randint(1, n + hidden)))
            op["as"] = rng.choice(["list", "list", "tuple", "gen", "dictvalues"])
        if k == "tables":
            op["t"] = table()
        if k == "wait":
            op["len"] = rng.choice([100, 200, 400, 700])
        ops.append(op)
    net = common.net(rng)
    net["rates"].pop("send_timeout", None)
    return {"cfg": {"devs": devs, "n": n, "net": net, "tables": [table() for _ in devs] + [table()], "skip": rng.random() < 0.3, "auto": rng.choice([0, 0, 90, 150])}, "ops": ops}


async def run(w, plan):
    from sim import radio as R
    import zigpy.config as conf
    t = R.t

    cfg = plan["cfg"]
    radio = R.SimRadio(w, cfg["net"])
    sims = []
    for i, s in enumerate(cfg["devs"]):
        d = radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), s, f"d{i}"))
        sims.append(d)
    coord = radio.coord
    coord.spec = {**coord.spec, "pages": [3], "mode": "ok"}
    everyone = sims + [coord]
    phantoms = [0x7A01, 0x7A02, 0x7A03]
    COORD = R.eui(R.COORD_IEEE)
    for d in everyone:
        d.eui = R.eui(d.ieee)
        d.changed = -1.0
        d.serve = 0
    by_eui = {d.eui: d for d in everyone}

    def fill(d, spec):
        nb, rt = spec
        d.neighbors, d.routes = [], []
        for who, b1, permit, depth, lqi in nb:
            if who[0] == "dev":
                x = sims[who[1]]
                ieee, nwk = x.ieee, x.nwk
            elif who[0] == "phantom":
                ieee, nwk = 0x00AA00000000 + who[1], phantoms[who[1]]
            elif who[0] == "zero":
                ieee, nwk = 0, phantoms[0]
            elif who[0] == "ones":
                ieee, nwk = 0xFFFFFFFFFFFFFFFF, phantoms[1]
            elif who[0] == "dup" and d.neighbors:
                d.neighbors.append(d.neighbors[-1])
                continue
            else:
                ieee, nwk = R.COORD_IEEE, 0
            d.neighbors.append(W.u64(0x1122334455667788) + W.u64(ieee) + W.u16(nwk) + W.u8(b1) + W.u8(permit) + W.u8(depth) + W.u8(lqi))
        addr = lambda x: sims[x[1]].nwk if x[0] == "dev" else phantoms[x[1]]
        for status, dst, hop in rt:
            d.routes.append(W.u16(addr(dst)) + W.u8(status) + W.u16(addr(hop)))
        d.changed = w.now

    for d, spec in zip(everyone, cfg["tables"]):
        fill(d, spec)
        d.changed = -1.0

    def serve(d):
        def hook(tx, tsn, c, b, bcast):
            if c not in (LQI, RTG) or bcast:
                return False
            mode, start = d.spec["mode"], tx.data[1]
            table = d.neighbors if c == LQI else d.routes
            T = W.u8(tsn)
            if mode == "silent":
                return True
            if mode == "unsup" or mode == ("unsup_lqi" if c == LQI else "unsup_rtg") or (mode == "late_unsup" and start > 0):
                d.rsp(tx, T + W.u8(W.ZDO_NOT_SUPPORTED))
            elif mode == "garbled":
                d.rsp(tx, T + W.u8(0))
                w.stats["garbled"] += 1
            else:
                p = d.spec["pages"]
                d.serve += 1
                ents = table[start : start + p[d.serve % len(p)]]
                d.rsp(tx, T + W.u8(0) + bytes([len(table) + (3 if mode == "claim" and table else 0), start, len(ents)]) + b"".join(ents))
            return True
        return hook

    for d in everyone:
        d.zdo_hook = serve(d)

    app = await R.start_app(w, radio, R.base_config(**{conf.CONF_TOPO_SKIP_COORDINATOR: cfg["skip"]}))
    topo = app.topology
    for i, d in enumerate(sims[: cfg["n"]]):
        if cfg["devs"][i]["bare"]:
            app.add_device(d.eui, t.NWK(d.nwk))
        else:
            common.ready_device(app, d, R)

    class Scan:
        def __init__(self, kind, devices=None):
            self.kind, self.live, self.t0, self.last, self.sure = kind, True, w.now, w.now, w.now
            self.targets = devices
            self.attempts = {}
            self.done = set()
            self.looked = []
            self.unknown = None
            self.must = must(devices) if devices is not None else must(list(app.devices.values()))
            self.why = None

    unsup, fuzzy = set(), set()  # fuzzy: answered too close to the timeout to know whether zigpy saw it
    tables = {LQI: {}, RTG: {}}
    names = {LQI: "neighbors", RTG: "routes"}
    manual = []  # live manual scans, newest last
    loop = {"on": False, "gen": 0, "period": None, "since": None, "scan": None}
    gone_at = {}

    def eligible(dev):
        d = by_eui.get(dev.ieee)
        if app.devices.get(dev.ieee) is not dev or dev.node_desc is None or d.logical == 2:
            return False
        if d is coord and cfg["skip"]:
            return False
        return not all((dev.ieee, k) in unsup or (dev.ieee, k) in fuzzy for k in (LQI, RTG))

    def must(devices):
        return [dev for dev in devices if eligible(dev)]

    def known_nwks():
        return {int(dv.nwk) for dv in app.devices.values()}

    def named_in_tables():
        out = set()
        for ieee, tb in tables[LQI].items():
            if ieee not in gone_at:
                out |= {int.from_bytes(e[16:18], "little") for e in tb}
        for ieee, tb in tables[RTG].items():
            for e in tb if ieee not in gone_at else []:
                if e[2] & 7 == 0:
                    out |= {int.from_bytes(e[0:2], "little"), int.from_bytes(e[3:5], "little")}
        return out

    def answered(tx):
        """None: no, else the payload; 'maybe' too close to tell."""
        if tx.outcome == "cancelled":
            return "maybe"
        if tx.outcome not in ("sent",):
            return None
        best = None
        for rx in radio.rxs[tx.tag:]:
            if rx.req is tx and int(rx.cluster) == int(tx.cluster) | W.RSP:
                lim = tx.t1 + 5.0
                if rx.t < lim - 0.05:
                    return rx.data
                if rx.t < lim + 0.05:
                    best = "maybe"
        return best

    def outcome(d, kind, attempts, final):
        """What the router's pages add up to."""
        acc, want, i = [], 0, 0
        while i < len(attempts):
            tx = attempts[i]
            i += 1
            idx = tx.data[1]
            w.check(idx == want, "page-index", lambda: f"{d.name}: entry {idx} was asked for instead of {want}")
            if idx != want:
                return ("skip", None)
            a = answered(tx)
            if a == "maybe":
                return ("skip", None)
            if a is None:
                continue
            if a[1] != 0:
                return ("unsup", None)
            if len(a) < 5:
                return ("fail", None) if i == len(attempts) else ("skip", None)
            size = 22 if kind == LQI else 5
            ents = [a[5 + k * size : 5 + (k + 1) * size] for k in range(a[4])]
            acc += ents
            want += len(ents)
            if want >= a[2] or not ents:
                w.check(i == len(attempts), "overread", lambda: f"{d.name}: {len(attempts) - i} more requests after its last entry")
                return ("done", acc)
            if i == len(attempts):
                w.violate("stopped-paging", f"{d.name} answered up to entry {want} of {a[2]} and was not asked for the rest")
                return ("skip", None)
        return ("fail", None)

    def on_event(kind, ieee, table):
        scan = CUR.get()
        d = by_eui[ieee]
        raw = [e.serialize() for e in table]
        w.log("table", names[kind], d.name, [x.hex() for x in raw])
        if scan is None or not scan.live:
            w.violate("event-after-end", f"{names[kind]} of {d.name} were announced by a scan that had ended ({None if scan is None else scan.why})")
            return
        if scan.kind == "loop":
            sync_loop(scan)
            scan = loop["scan"]
        scan.last = scan.sure = w.now
        if (ieee, kind) in scan.done:
            w.violate("scanned-twice", f"{names[kind]} of {d.name} scanned twice by one scan")
        scan.done.add((ieee, kind))
        attempts = scan.attempts.pop((ieee, kind), [])
        if ieee in gone_at:
            # it was removed: whatever it still answers must not be kept
            w.check(ieee in app.devices, "removed-device", lambda: f"{names[kind]} of {d.name}, which was removed, are announced")
            if ieee in app.devices:
                tables[kind][ieee] = raw
            return
        old = tables[kind].get(ieee, [])
        if not attempts:
            if (ieee, kind) in fuzzy:
                unsup.add((ieee, kind))
            w.check((ieee, kind) in unsup, "not-asked", lambda: f"{d.name} was not asked for its {names[kind]}")
            want = []
        else:
            res, acc = outcome(d, kind, attempts, True)
            if res == "skip":
                tables[kind][ieee] = raw
                w.stats["skipped"] += 1
                if not raw and any(rx.req in attempts and rx.data[1] for rx in radio.rxs[attempts[0].tag:]):
                    fuzzy.add((ieee, kind))
                return
            if res == "done":
                if kind == LQI:
                    want = [e for e in acc if e[8:16] not in (bytes(8), b"\xff" * 8)]
                    w.stats["invalid_filtered"] += len(want) != len(acc)
                else:
                    want = [e for e in acc if e[2] & 7 != 3]
                    w.stats["inactive_filtered"] += len(want) != len(acc)
                if d.changed < attempts[0].t0:
                    truth = d.neighbors if kind == LQI else d.routes
                    w.check(acc == truth, "incomplete", lambda: f"{d.name}: {len(acc)} of {len(truth)} {names[kind]} were read")
                    w.stats["exact_tables"] += 1
                w.stats["multi_page"] += len({a.data[1] for a in attempts}) > 1
            elif res == "unsup":
                unsup.add((ieee, kind))
                w.stats["unsupported"] += 1
                want = []
            else:
                w.stats["kept_tables"] += bool(old)
                want = old
        w.check(raw == want, "table", lambda: f"{names[kind]} of {d.name} are {[x.hex() for x in raw]} instead of {[x.hex() for x in want]}")
        tables[kind][ieee] = raw

    class L:
        def neighbors_updated(self, ieee, table):
            on_event(LQI, ieee, table)

        def routes_updated(self, ieee, table):
            on_event(RTG, ieee, table)
            scan = CUR.get()
            if scan is not None and scan.kind == "loop":
                scan = loop["scan"]
            if scan is not None:
                # lookups follow the last table; what is unknown by then counts
                scan.unknown = named_in_tables() - known_nwks()
                scan.looked.clear()

        def device_removed(self, dev):
            gone_at[dev.ieee] = w.now
            for k in tables:
                tables[k].pop(dev.ieee, None)

    topo.add_listener(L())
    app.add_listener(L())

    # ---- periodic scans
    def sync_loop(tag):
        """A packet or event of the periodic loop: a new scan or the same one?"""
        sc = loop["scan"]
        if sc is None or not sc.live or w.now - sc.last > SLACK:
            ref = loop["t0"] if sc is None else max(loop["t0"], sc.sure)
            w.check(w.now - ref >= loop["period"] - 0.01, "scan-early", lambda: f"a scheduled scan runs {w.now - ref:.1f} s after the last one ended, the period is {loop['period']} s")
            if sc is not None and sc.live:
                completed(sc)
            loop["scan"] = sc = Scan("loop")
            sc.gen = loop["gen"]
            w.stats["loop_scans"] += 1
        return sc

    def completed(scan):
        for dev in scan.must:
            d = by_eui[dev.ieee]
            if dev.ieee in gone_at:
                continue
            if app.devices.get(dev.ieee) is not dev or (not eligible(dev) and not any((dev.ieee, k) in scan.done for k in tables)):
                continue
            for k in tables:
                w.check((dev.ieee, k) in scan.done, "router-skipped", lambda: f"the scan ended without the {names[k]} of {d.name}")
        named = named_in_tables()
        if scan.unknown is not None:
            for nwk in scan.unknown & named - known_nwks():
                w.check(nwk in scan.looked, "not-looked-up", lambda: f"{nwk:#06x} is in a table, unknown, and was not looked up")
                w.stats["looked_up"] += 1

    def end_loop_scan(why):
        sc = loop["scan"]
        if sc is not None and sc.live:
            if w.now - sc.last < 8 and any(tx.outcome == "pending" for tx in radio.txs[-3:]):
                w.stats["loop_cancelled" if why == "manual" else "stopped_mid_scan"] += 1
            sc.live, sc.why = False, why

    def on_tx(tx):
        c = int(tx.cluster)
        scan = CUR.get()
        tx.tag = len(radio.rxs)
        if tx.dst_mode == t.AddrMode.Broadcast and c == W.IEEE_ADDR_REQ and scan is not None:
            nwk = int.from_bytes(tx.data[1:3], "little")
            if scan.kind == "loop":
                scan = loop["scan"]
            if scan is not None:
                scan.looked.append(nwk)
                scan.last = w.now
            return
        if c not in (LQI, RTG) or tx.dst_ep != 0:
            return
        d = next((x for x in everyone if x.nwk == int(tx.dst)), None)
        w.state(len(manual), loop["on"], len(unsup), len(app.devices))
        if scan is None:
            raise HarnessError("untagged scan request")
        if scan.kind == "loop":
            if scan.gen != loop["gen"] or not loop["on"]:
                w.violate("scan-after-stop", f"a scan request to {d and d.name} after periodic scans were stopped")
                return
            if manual:
                w.violate("scan-overlap", "a scheduled scan runs during a manual one")
                return
            scan = sync_loop(scan)
        elif not scan.live:
            w.violate("scan-after-stop", f"a scan request to {d and d.name} by a scan that was {scan.why}")
            return
        elif manual[-1] is not scan:
            w.violate("scan-overlap", "a replaced scan goes on")
        scan.last = scan.sure = w.now
        if d is None:
            w.violate("asked-nobody", f"a scan request to {int(tx.dst):#06x}")
            return
        ieee = d.eui
        scan.attempts.setdefault((ieee, c), []).append(tx)
        dev = app.devices.get(ieee)
        if dev is None:
            return  # removed meanwhile
        if ieee in gone_at:
            return
        w.check(d.logical != 2, "asked-end-device", lambda: f"{d.name} is an end device")
        w.check(dev.node_desc is not None, "asked-unknown-type", lambda: d.name)
        w.check(not (d is coord and cfg["skip"]), "asked-coordinator", lambda: "the coordinator is to be skipped")
        w.check((ieee, c) not in unsup, "asked-unsupported", lambda: f"{d.name} does not support {names[c]} requests")
        if scan.targets is not None:
            w.check(dev in scan.targets, "asked-other", lambda: f"{d.name} was not to be scanned")

    radio.on_tx.append(on_tx)

    def quiet():
        # tables, and nothing of removed devices
        for k in tables:
            have = {i: [e.serialize() for e in tb] for i, tb in getattr(topo, names[k]).items() if tb}
            want = {i: tb for i, tb in tables[k].items() if tb}
            extra = [i for i in have if i in gone_at]
            if any(i not in app.devices for i in extra):
                w.violate("removed-device", f"{names[k]} of {by_eui[extra[0]].name}, which was removed, are back")
            for i in extra:
                have.pop(i)
            for i in gone_at:
                want.pop(i, None)
            if have != want:
                w.violate("tables-state", f"{names[k]}: {[by_eui[i].name for i in set(have) | set(want) if have.get(i) != want.get(i)]} differ from what was announced")
                tables[k].clear()
                tables[k].update(have)
        # scheduled scans
        if loop["on"]:
            sc = loop["scan"]
            ref = loop["since"]
            if sc is not None and sc.gen == loop["gen"]:
                ref = max(ref, sc.last)
            if manual or any(tx.outcome == "pending" for tx in radio.txs[-5:]):
                loop["since"] = max(loop["since"], w.now) if manual else loop["since"]
            elif not any(eligible(dv) for dv in app.devices.values()):
                loop["since"] = w.now  # nothing to scan, nothing to see
            elif w.now - ref > loop["period"] + SLACK:
                w.violate("scan-missing", f"no scheduled scan for {w.now - ref:.0f} s, the period is {loop['period']} s")
                loop["since"] = w.now

    def start_loop(period):
        loop["gen"] += 1
        end_loop_scan("restarted")
        if loop["on"]:
            w.stats["restarted_loop"] += 1
        tag = Scan("loop", [])
        tag.gen = loop["gen"]
        loop.update(on=True, period=period, since=w.now, t0=w.now, scan=None)

        def go():
            CUR.set(tag)
            topo.start_periodic_scans(period)

        contextvars.copy_context().run(go)

    def stop_loop():
        loop["gen"] += 1
        loop["on"] = False
        end_loop_scan("stopped")
        topo.stop_periodic_scans()
        w.stats["stopped"] += 1

    tasks = []

    def start_manual(devices=None, form="list"):
        scan = Scan("manual", list(app.devices.values()) if devices is None else devices)
        for old in manual:
            old.live, old.why = False, "replaced"
            w.stats["replaced"] += 1
        manual.clear()
        end_loop_scan("manual")
        manual.append(scan)
        if loop["on"]:
            loop["since"] = max(loop["since"], w.now)
        w.stats["manual"] += 1
        arg = None
        if devices is not None:
            w.stats["subset"] += 1
            arg = {"list": lambda: list(devices), "tuple": lambda: tuple(devices), "gen": lambda: (x for x in devices), "dictvalues": lambda: {x.ieee: x for x in devices}.values()}[form]()

        async def call():
            CUR.set(scan)
            try:
                await topo.scan(arg)
            except asyncio.CancelledError:
                if scan.live:
                    w.violate("scan-cancelled", "a scan nobody stopped was cancelled")
                raise
            except Exception as e:  # noqa: BLE001
                from sim.core import frames_of
                w.violate("scan-raised", f"scan() raised {e!r}: {frames_of(e)[1]}")
            else:
                if scan.live:
                    w.stats["manual_done"] += 1
                    completed(scan)
            finally:
                scan.live, scan.why = False, scan.why or "finished"
                if scan in manual:
                    manual.remove(scan)

        scan.task = asyncio.create_task(call())
        tasks.append(scan.task)

    w.on_quiet = quiet
    if cfg["auto"]:
        start_loop(cfg["auto"])
    n_op = 0
    for op in plan["ops"]:
        n_op += 1
        await asyncio.sleep(op["dt"] + 0.0001 * n_op)
        k, d = op["op"], sims[op["d"]]
        dev = app.devices.get(d.eui)
        w.log("op", k, d.name)
        if k == "manual":
            start_manual()
        elif k == "subset":
            which = [app.devices[x.eui] for x in [everyone[i] for i in op["which"]] if x.eui in app.devices]
            start_manual(which, op["as"])
        elif k == "cancel":
            if manual:
                sc = manual[-1]
                sc.live, sc.why = False, "cancelled"
                manual.clear()
                sc.task.cancel()
                w.stats["caller_cancelled"] += 1
        elif k == "start":
            start_loop(op["period"])
        elif k == "stop":
            stop_loop()
        elif k == "tables":
            fill(d, op["t"])
            w.stats["table_changed"] += 1
        elif k == "offline":
            d.online = False
            w.loop.call_later(30.0177, setattr, d, "online", True)
            w.stats["fault_offline"] += 1
        elif k == "remove":
            if dev is not None and dev.node_desc is not None:
                w.stats["removed"] += 1
                w.stats["removed_mid_scan"] += bool(manual)
                dev.cancel_initialization()
                await app.remove(d.eui)
                w.loop.call_later(0.0037 + op["dt"], setattr, d, "on_network", False)
        elif k == "add":
            if dev is None and d.eui not in gone_at:
                common.ready_device(app, d, R)
                w.stats["added"] += 1
        elif k == "wait":
            await asyncio.sleep(op["len"])
        else:
            raise HarnessError(k)
    pend = [x for x in tasks if not x.done()]
    if pend:
        await asyncio.wait(pend, timeout=6000)
        w.check(all(x.done() for x in pend), "scan-hangs", lambda: "a scan did not end")
    # over a good network everything is recorded
    radio.faults_on = False
    for d in sims:
        d.online = True
    await asyncio.sleep(100)
    end_loop_scan("manual")
    start_manual()
    last = manual[-1].must
    await asyncio.wait([tasks[-1]], timeout=6000)
    w.check(tasks[-1].done(), "scan-hangs", lambda: "a scan over a good network did not end")
    for dv in last:
        d = by_eui[dv.ieee]
        if eligible(dv) and d.on_network and d.spec["mode"] in ("ok", "claim"):
            have = [e.serialize() for e in topo.neighbors.get(dv.ieee, [])]
            want = [e for e in d.neighbors if e[8:16] not in (bytes(8), b"\xff" * 8)]
            w.check((dv.ieee, LQI) in unsup or have == want, "final-table", lambda: f"{d.name}: {len(have)} neighbours of {len(want)}")
    w.stats["bcast_failed"] += sum(1 for tx in radio.broadcasts if tx.outcome == "failed")
    w.stats["found"] += sum(1 for d in sims[cfg["n"]:] if d.eui in app.devices)
    w.on_quiet = None
    stop_loop()
    await asyncio.sleep(400)
    w.check(len([1 for tx in radio.txs if int(tx.cluster) in (LQI, RTG) and tx.t0 > w.now - 399]) == 0, "scan-after-stop", lambda: "scan requests after stopping")
    await app.shutdown()
    w.sample = {"tables": len(tables[LQI]), "ops": len(plan["ops"])}


PARTS = [Part("topology", 1, generate, run, max_steps=600_000)]
