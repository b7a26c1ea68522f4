"""P18: startup and shutdown are clean under every failure."""
import asyncio
import errno

from scen import common
from sim import wire as W
from sim.core import HarnessError, frames_of
from sim.runner import Part

PROPERTY = "P18"
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 400000}
BATCH = 50
REAL = ["ControllerApplication.probe", "zigpy.application startup, initialize, form, permit, watchdog, shutdown and new()", "zigpy.appdb on SQLite", "periodic loops of zigpy.backups, zigpy.topology and zigpy.ota", "zigpy.device and zigpy.zdo"]
STUBS = ["radio library (connect, disconnect, network settings, watchdog) and devices", "clock and scheduler", "SQLite worker thread"]
RULE = ("a run = one configuration (database, watchdog, backups, topology scans, OTA broadcasts, energy scan, validation) and 4..16 operations: starts with one to three failing or slow radio "
        "calls or a failing database, cancelled or not, through startup() or new(), waits from 1 s to 6 h, watchdog failures, radio outages, reports, shutdowns with a failing radio or database; "
        "distinct = distinct sequence of radio calls, packets and events")
STATES = "(radio call, attempt, running, activities enabled) at each radio call"
PROBES = ["start_ok", "start_failed", "start_cancelled", "transient", "other_error", "tolerated", "not_formed", "inconsistent", "formed", "restored", "new_failed", "db_load_failed", "restarted_app", "reopened",
          "stop", "stop_disc_failed", "stop_db_fault", "stop_keep_db", "feed_failed", "feeds", "backups", "scans", "ota_broadcasts", "flushed", "quiet_hours", "stop_in_call", "retried_start", "slow_disconnect", "validated", "probe_found", "probe_none", "probe_cancelled"]
ASSUMPTIONS = ["a radio library's disconnect() returns or raises within bounded time"]

APIS = ["connect", "watchdog_feed", "load_network_info", "start_network", "permit_ncp", "write_network_info", "add_endpoint", "bcast", "energy"]
KINDS = ["conn", "reset", "unreach", "perm", "timeout", "runtime", "delivery", "mac", "value", "api"]
SLACK = 5.0


def generate(rng, tier):
    n = rng.choice([0, 1, 1, 2])
    cfg = {
        "devs": [common.device_spec(rng, logical=1, simple=True) for _ in range(n)],
        "db": rng.random() < 0.7, "db_delay": rng.choice([0, 0, 0.01]), "wd": rng.random() < 0.8, "nb": rng.choice([0, 0, 1, 7, 60, 1440]), "topo": rng.choice([0, 0, 20, 60, 240]),
        "ota": rng.choice([None, None, [10, 60], [600, 3600], [14040, 14040], [0, 30]]), "escan": rng.random() < 0.3, "validate": rng.random() < 0.5, "formed": rng.random() < 0.6,
        "net": {"api_lat": rng.choice([0, 0, 0.5, 2.0]), "lat": [0.0, 0.25], "send_lat": rng.choice([[0.0, 0.0], [0.0, 0.5]]), "rates": {}},
    }

    def fails():
        out = []
        for _ in range(rng.choice([0, 0, 0, 1, 1, 1, 2, 3])):
            a = rng.choice(APIS)
            out.append([a, rng.choice([0, 0, 0, 0, 1, 2]) if a not in ("watchdog_feed",) else 0, rng.choice(KINDS)])
        return out

    ops = []
    for _ in range(rng.choice([4, 7, 10, 16])):
        k = rng.choice(["start"] * 6 + ["run"] * 5 + ["stop"] * 4 + ["feed_fail"] * 2 + ["report"] * 3 + ["load_fail", "outage", "lost", "swap", "unform", "stop_mid"])
        op = {"op": k, "n": rng.randrange(1 << 16)}
        if k == "start":
            op.update(form=rng.random() < 0.7, fails=fails(), cancel=rng.choice([0.001, 0.3, 0.9, 1.7, 3.1, 6.2]) if rng.random() < 0.15 else None, new=rng.random() < 0.4,
                      dbfail=rng.choice([1, 2, 3, 5, 8, 20, 40, 60]) if rng.random() < 0.1 else None, disc=rng.choice(KINDS) if rng.random() < 0.2 else None)
        elif k == "run":
            op["dt"] = rng.choice([1, 10, 29.5, 31, 95, 700, 4000, 21600])
        elif k in ("feed_fail", "lost", "outage", "load_fail"):
            op["kind"] = rng.choice(KINDS)
            op["dt"] = rng.choice([20, 40, 100, 4000])
        elif k in ("stop", "stop_mid"):
            op.update(db=rng.random() < 0.75, disc=rng.choice(KINDS) if rng.random() < 0.3 else None, dbfault=rng.choice([1, 2, 3, 4, 6]) if rng.random() < 0.15 else None, dt=rng.choice([10, 100, 4000, 21600]),
                      at=rng.choice([0, 0.1, 0.3]), slow=rng.choice([0, 0, 0, 45, 100]))
        ops.append(op)
    return {"cfg": cfg, "ops": ops}


async def run(w, plan):
    import sqlite3

    from sim import radio as R, storage
    import zigpy.config as conf
    import zigpy.exceptions as ze
    t = R.t

    cfg = plan["cfg"]
    radio = R.SimRadio(w, {**cfg["net"], "formed": cfg["formed"]})
    st = storage.attach(w, delay=cfg["db_delay"])
    path = f"{w.scratch}/z.db"
    config = R.base_config(**{
        conf.CONF_DATABASE: path if cfg["db"] else None, conf.CONF_WATCHDOG_ENABLED: cfg["wd"], conf.CONF_NWK_BACKUP_ENABLED: bool(cfg["nb"]), conf.CONF_NWK_BACKUP_PERIOD: cfg["nb"] or 1440,
        conf.CONF_TOPO_SCAN_ENABLED: bool(cfg["topo"]), conf.CONF_TOPO_SCAN_PERIOD: cfg["topo"] or 240, conf.CONF_STARTUP_ENERGY_SCAN: cfg["escan"], conf.CONF_NWK_VALIDATE_SETTINGS: cfg["validate"],
        conf.CONF_OTA: {conf.CONF_OTA_ENABLED: bool(cfg["ota"]), conf.CONF_OTA_BROADCAST_ENABLED: bool(cfg["ota"]), conf.CONF_OTA_BROADCAST_INITIAL_DELAY: (cfg["ota"] or [9, 9])[0],
                        conf.CONF_OTA_BROADCAST_INTERVAL: (cfg["ota"] or [9, 9])[1], conf.CONF_OTA_DISABLE_DEFAULT_PROVIDERS: ["inovelli", "ledvance", "salus", "sonoff", "thirdreality"], conf.CONF_OTA_PROVIDERS: []},
    })
    sims = [radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), s, f"d{i}")) for i, s in enumerate(cfg["devs"])]
    lat = cfg["net"]["api_lat"]
    MAC = t.MACStatus.MAC_CHANNEL_ACCESS_FAILURE

    class App(R.SimApp):
        sim_radio = radio

        def __init__(self, config):
            super().__init__(config)
            apps.append(self)
            self.add_listener(Lost())

    apps = []
    lost = []  # (time, exception)

    class Lost:
        def connection_lost(self, exc):
            lost.append((w.now, exc))
            w.log("lost", type(exc).__name__)

    def make(kind):
        return {"conn": lambda: ConnectionError("no"), "reset": lambda: ConnectionResetError(errno.ECONNRESET, "reset"), "unreach": lambda: OSError(errno.ENETUNREACH, "unreachable"),
                "perm": lambda: OSError(errno.EACCES, "denied"), "timeout": lambda: asyncio.TimeoutError(), "runtime": lambda: RuntimeError("boom"),
                "delivery": lambda: ze.DeliveryError("no", status=0xE9), "mac": lambda: ze.DeliveryError("busy", status=MAC), "value": lambda: ValueError("odd"), "api": lambda: ze.APIException("api")}[kind]()

    s = {"app": None, "open": False, "running": False, "since": 0.0, "attempt": 0, "allowed": None, "quiet_from": None, "down": False, "phase": "stopped", "slow": 0, "prior": None}
    gate = {"bcast": [], "energy": []}

    async def send_gate(packet, tx):
        which = None
        if tx.dst_mode == t.AddrMode.Broadcast:
            which = "bcast"
        elif int(tx.cluster) == W.NWK_UPDATE_REQ and int(tx.dst) == 0:
            which = "energy"
        lst = gate.get(which)
        exc = lst.pop(0) if lst else None
        if s["down"] and not (exc is not None):
            exc = ze.DeliveryError("radio is gone", status=0xE9)
        if exc is not None:
            w.stats["fault_send_" + str(which)] += 1
            raise exc

    radio.send_gate = send_gate

    def on_tx(tx):
        if s["quiet_from"] is not None and w.now > s["quiet_from"]:
            w.violate("active-after-stop", f"a packet is sent {w.now - s['quiet_from']:.2f} s after the {s['phase']}: cluster {int(tx.cluster):#06x} to {tx.dst}")

    radio.on_tx.append(on_tx)

    class Ops(list):
        """Every call of the radio library, checked as it is made."""

        def append(self, x):
            super().append(x)
            w.state(x[1], s["attempt"], s["running"], cfg["wd"], bool(cfg["nb"]))
            if s["down"] and x[1] != "disconnect":
                radio.fail.setdefault(x[1], []).insert(0, ConnectionResetError(errno.ECONNRESET, "radio is gone"))
            if s["quiet_from"] is not None and x[1] != "disconnect" and w.now > s["quiet_from"]:
                w.violate("active-after-stop", f"{x[1]} is called {w.now - s['quiet_from']:.2f} s after the {s['phase']}")

    radio.ops = Ops()

    def zigpy_tasks():
        out = []
        for task in asyncio.all_tasks():
            co = task.get_coro()
            code = getattr(co, "cr_code", None)
            if code is None or task.done() or "/zigpy/" not in code.co_filename:
                continue
            if s["open"] and code.co_filename.endswith("appdb.py"):
                continue
            out.append(code.co_qualname if hasattr(code, "co_qualname") else code.co_name)
        return sorted(out)

    async def settled(what, before):
        await asyncio.sleep(1.0003)
        left = zigpy_tasks()
        for x in before:
            if x in left:
                left.remove(x)
        w.check(not left, "task-left", lambda: f"after the {what} these tasks are still running: {left}")
        w.check(not radio.connected, "still-connected", lambda: f"after the {what} the radio is still connected")
        if not s["open"]:
            w.check(not st.leaked(), "database-left-open", lambda: f"after the {what} the database is still open")

    async def bounded(coro, what, limit):
        task = asyncio.ensure_future(coro)
        done, _ = await asyncio.wait([task], timeout=limit)
        if not done:
            w.violate("stuck", f"the {what} has not returned after {limit} s")
            task.cancel()
            await asyncio.wait([task], timeout=10)
            return None, None
        if task.cancelled():
            return None, asyncio.CancelledError()
        return (None, task.exception()) if task.exception() is not None else (task.result(), None)

    def same(a, b):
        return None not in (a, b) and a.network_info.extended_pan_id == b.extended_pan_id and a.network_info.pan_id == b.pan_id and a.network_info.network_key.key == b.network_key.key and \
            a.network_info.channel == b.channel

    def tracked(lst):
        return [e for e in lst if e[2].__traceback__ is not None]

    async def start(op):
        w.stats["retried_start"] += s["attempt"] > 0
        s["attempt"] += 1
        s["phase"] = f"failed start {s['attempt']}"
        s["quiet_from"] = None
        fresh = s["app"] is None
        mark = len(radio.ops)
        injected = []
        radio.fail.clear()
        for a, k, kind in op["fails"]:
            exc = make(kind)
            injected.append((a, kind, exc))
            lst = gate[a] if a in gate else radio.fail.setdefault(a, [])
            while len(lst) <= k:
                lst.append(None)
            lst[k] = exc
        if op["disc"]:
            radio.fail["disconnect"] = [make(op["disc"])]
        dbexc = None
        if fresh and op["dbfail"] is not None and cfg["db"]:
            base = st.steps
            dbexc = sqlite3.OperationalError("disk I/O error")

            def inject(kind, sql, n):
                if n - base == op["dbfail"] and kind not in ("close", "rollback"):
                    return ("skip", dbexc)

            st.inject = inject
        before = zigpy_tasks()
        unformed = radio.net is None

        async def go():
            if not fresh:
                w.stats["restarted_app"] += 1
                await s["app"].startup(**({"auto_form": True} if op["form"] else {}))
                return begun(s["app"])
            if op["new"]:
                return begun(await App.new(config, **({"auto_form": True} if op["form"] else {})))
            app = await App.new(config, start_radio=False)
            s["app"], s["open"] = app, cfg["db"]
            s["loaded"] = True
            st.inject = None
            await app.startup(**({"auto_form": True} if op["form"] else {}))
            return begun(app)

        def begun(app):
            s["mark"], s["txmark"], s["lost"], s["since"] = len(radio.ops), len(radio.txs), len(lost), w.now
            s["feedfail"], s["expect_lost"], s["running"] = [], [], True
            s["hit"] = tracked(injected)
            return app

        s["loaded"] = not fresh
        coro = go()
        if op["cancel"] is not None:
            task = asyncio.ensure_future(coro)

            async def cancelling():
                # only once the radio is involved: an interrupted opening of the database is out of scope
                while not task.done() and len(radio.ops) == mark:
                    await asyncio.sleep(0.01)
                await asyncio.wait([task], timeout=op["cancel"])
                if "disconnect" not in [x[1] for x in radio.ops[mark:]]:  # it is not cleaning up already
                    task.cancel()
                return await task

            coro = cancelling()
        res, exc = await bounded(coro, "start", 900)
        st.inject = None
        radio.fail.clear()
        for g in gate.values():
            g.clear()
        ok = exc is None and res is not None
        raised = s["hit"] if ok else tracked(injected)
        fatal = [e for e in raised if not (e[0] in ("bcast", "permit_ncp") and e[1] == "mac") and not (e[0] == "energy" and e[1] in ("timeout", "delivery", "mac"))]
        w.stats["tolerated"] += len(raised) > len(fatal)
        created = not fresh or not op["new"]
        if fresh and dbexc is not None and dbexc.__traceback__ is not None and not s["loaded"] and not op["new"]:
            w.stats["db_load_failed"] += 1
        if ok:
            app = res
            w.check(not fatal, "failure-ignored", lambda: f"{fatal[0][0]} failed with {fatal[0][1]} but the start succeeded")
            w.check(radio.connected, "not-connected", "the start succeeded but the radio is not connected")
            w.check(op["form"] or not unformed, "formed-unasked", "the start succeeded on an unformed radio though forming was not asked for")
            w.stats["start_ok"] += 1
            if cfg["validate"] and s["prior"] is not None:
                w.check(same(s["prior"], radio.net), "inconsistent-accepted", "the radio's settings contradict the last backup and validation is on, but the start succeeded")
                w.stats["validated"] += 1
            if unformed:
                w.stats["restored" if s["prior"] is not None else "formed"] += 1
            s["app"], s["open"], s["running"] = app, cfg["db"], True
            s["feed0"] = next((x for x in radio.ops[mark:] if x[1] == "watchdog_feed"), None)
            names = [x[1] for x in radio.ops[mark:]]
            if cfg["wd"]:
                w.check(names[:2] == ["connect", "watchdog_feed"], "watchdog-first", lambda: f"the first radio calls are {names[:3]}")
            for d in sims:
                if R.eui(d.ieee) not in app.devices:
                    dev = common.ready_device(app, d, R)
                    app.device_initialized(dev)
            return
        if exc is None:
            return  # stuck
        cancelled = isinstance(exc, asyncio.CancelledError)
        loaded = s["loaded"] if not (fresh and op["new"]) else None
        w.log("failed", type(exc).__name__)
        # what went wrong
        db_failed = dbexc is not None and dbexc.__traceback__ is not None
        if cancelled:
            w.stats["start_cancelled"] += 1
            w.check(op["cancel"] is not None, "cancelled-by-itself", "the start raised CancelledError without being cancelled")
        elif db_failed and isinstance(exc, sqlite3.Error):
            w.stats["db_load_failed"] += 1
        elif fatal:
            w.stats["start_failed"] += 1
            a, kind, want = fatal[0]
            if kind in ("conn", "reset", "unreach"):
                w.stats["transient"] += 1
                w.check(isinstance(exc, ze.TransientConnectionError) and exc.__cause__ is want, "wrong-error", lambda: f"{a} failed with {want!r}, the start raised {exc!r} caused by {exc.__cause__!r}")
            else:
                w.stats["other_error"] += 1
                w.check(exc is want, "wrong-error", lambda: f"{a} failed with {want!r}, the start raised {exc!r}")
        elif isinstance(exc, ze.NetworkNotFormed):
            w.stats["not_formed"] += 1
            w.check(unformed and not op["form"], "wrong-error", f"the start raised {exc!r}")
        elif isinstance(exc, ze.NetworkSettingsInconsistent):
            w.stats["inconsistent"] += 1
            w.check(cfg["validate"] and s["prior"] is not None, "refused", "settings are refused without a backup or validation")
            if s["prior"] is not None:
                w.check(not same(s["prior"], radio.net), "refused", "settings that agree with the last backup are refused")
        else:
            w.violate("start-failed", f"the start failed without a reason: {frames_of(exc)[1]} caused by {exc.__cause__!r}, raised faults {[e[:2] for e in raised]}")
        # what is left
        if fresh and (op["new"] or not s["loaded"]):
            w.stats["new_failed"] += 1
            s["app"], s["open"] = None, False
        names = [x[1] for x in radio.ops[mark:]]
        if "connect" in names:
            w.check("disconnect" in names[names.index("connect"):], "not-disconnected", lambda: f"after the failed start the radio was not disconnected: {names}")
        s["quiet_from"] = w.now
        await settled("failed start" if not cancelled else "cancelled start", before if not fresh else [])
        s["running"] = False

    # ---- activities while running
    def gaps(what, times, t0, t1, first, period, extra):
        """times must be t0+first, then every period (+ up to extra), until t1."""
        due, cap = t0 + first, t0 + first + extra
        for x in times:
            if x < due - 0.01:
                w.violate("too-early", f"{what} at {x:.2f}, due at {due:.2f}")
                return
            if x > cap:
                w.violate("too-late", f"{what} at {x:.2f}, due at {due:.2f}")
                return
            due, cap = x + period, x + period + extra
        if t1 > cap:
            w.violate("stopped-early", f"no {what} since {due - period:.2f}, one was due at {due:.2f}; it is {t1:.2f}")

    def judge():
        """Check the activities of the time since the start (called when it ends)."""
        ops = [x for x in radio.ops[s["mark"]:] if x[0] <= w.now]
        txs = radio.txs[s["txmark"]:]
        feeds = [x[0] for x in ops if x[1] == "watchdog_feed"]
        if cfg["wd"]:
            w.stats["feeds"] += len(feeds)
            f0 = s["feed0"][0] if s["feed0"] else s["since"]
            end = w.now
            if s["feedfail"]:
                at = s["feedfail"][0]
                end = min(end, at)
                more = [x for x in feeds if x > at + lat + 0.01]
                w.check(not more, "fed-after-failure", lambda: f"a feed failed at {at:.2f}, the next was at {more[0]:.2f}")
            all_feeds = [x for x in feeds if x <= end]
            # the first feed of the loop can precede the end of a slow start
            pre = [x[0] for x in radio.ops[: s["mark"]] if x[1] == "watchdog_feed" and x[0] > f0]
            gaps("a watchdog feed", pre + all_feeds, f0, end, 30, 30, 2 * lat + SLACK)
        else:
            w.check(not feeds, "fed-unasked", "the watchdog is fed though it is disabled")
        loads = [x[0] for x in ops if x[1] == "load_network_info"]
        if cfg["nb"]:
            w.stats["backups"] += len(loads)
            gaps("a backup", loads, s["since"], w.now, 0, 60 * cfg["nb"], 2 * lat + SLACK)
        else:
            w.check(not loads, "unasked", "network settings are loaded though backups are disabled")
        ota = [x.t0 for x in txs if int(x.cluster) == 0x19 and x.dst_mode == t.AddrMode.Broadcast]
        if cfg["ota"]:
            w.stats["ota_broadcasts"] += len(ota)
            gaps("an OTA broadcast", ota, s["since"], w.now, cfg["ota"][0], cfg["ota"][1], 2 + SLACK)
        else:
            w.check(not ota, "unasked", "OTA broadcasts are sent though disabled")
        lqi = []
        for x in txs:
            if int(x.cluster) == W.MGMT_LQI_REQ and int(x.dst) == 0 and x.data[1] == 0 and not (lqi and x.t0 - prev < 60):
                lqi.append(x.t0)
            if int(x.cluster) == W.MGMT_LQI_REQ and int(x.dst) == 0:
                prev = x.t0  # requests are repeated when they fail
        if cfg["topo"]:
            w.stats["scans"] += len(lqi)
            gaps("a topology scan", lqi, s["since"], w.now, 60 * cfg["topo"], 60 * cfg["topo"], 240)
        else:
            w.check(not lqi, "unasked", "topology scans run though disabled")
        got = lost[s["lost"]:]
        want = [e for e in s["expect_lost"] if e[1].__traceback__ is not None or e[0] == "lib"]
        w.check(sorted(id(e[1]) for e in want) == sorted(id(x[1]) for x in got), "connection-lost", lambda: f"connection_lost was announced with {[repr(x[1]) for x in got]}, expected {[repr(e[1]) for e in want]}")

    real_api = radio.api

    async def api(name):
        if name == "connect":
            s["prior"] = apps[-1].backups.most_recent_backup()
        try:
            if name == "disconnect" and s["slow"]:
                w.stats["slow_disconnect"] += 1
                await asyncio.sleep(s["slow"])
            await real_api(name)
        except Exception as e:
            if name == "watchdog_feed" and s["running"]:
                w.stats["feed_failed"] += 1
                s["feedfail"].append(w.now)
                if all(e is not x[1] for x in s["expect_lost"]):
                    s["expect_lost"].append(("feed", e))
            raise

    radio.api = api
    values = {}

    async def stop(op, mid=False):
        app = s["app"]
        if mid:
            # in the middle of a watchdog feed, backup or broadcast
            for _ in range(400):
                if radio.ops and radio.ops[-1][0] == w.now and radio.ops[-1][1] != "disconnect":
                    break
                await asyncio.sleep(0.25)
            else:
                return
            w.stats["stop_in_call"] += 1
            await asyncio.sleep(op["at"])
        if s["running"]:
            judge()
        radio.fail.clear()
        for g in gate.values():
            g.clear()
        if op["disc"]:
            radio.fail["disconnect"] = [make(op["disc"])]
            w.stats["stop_disc_failed"] += 1
        fault = False
        if op["dbfault"] is not None and op["db"] and s["open"]:
            base = st.steps

            def inject(kind, sql, n):
                nonlocal fault
                if n - base == op["dbfault"] and kind not in ("close", "rollback"):
                    fault = True
                    return ("skip", sqlite3.OperationalError("disk I/O error"))

            st.inject = inject
        s["phase"], s["quiet_from"], s["running"] = "shutdown", w.now, False
        nl = len(lost)
        mark = len(radio.ops)
        w.stats["stop"] += 1
        s["slow"] = op["slow"]
        kw = {} if op["db"] else {"db": False}
        _, exc = await bounded(app.shutdown(**kw), "shutdown", 300)
        st.inject = None
        s["slow"] = 0
        radio.fail.clear()
        w.check(exc is None, "shutdown-raised", lambda: f"shutdown raised {exc!r}")
        w.check("disconnect" in [x[1] for x in radio.ops[mark:]], "not-disconnected", "shutdown did not disconnect the radio")
        if fault:
            w.stats["stop_db_fault"] += 1
        if not op["db"]:
            w.stats["stop_keep_db"] += 1
        else:
            if s["open"]:
                s["app"] = None
            s["open"] = False
        await settled("shutdown", [])
        if cfg["db"] and op["db"] and not fault and values:
            rows = {}
            for name, rr in storage.dump(path).items():
                if name.startswith("attributes_cache"):
                    for r in rr:
                        rows[r[0], r[-3] if len(r) > 6 else None, r[-2]] = r
            flat = {k: v for k, v in ((str(r[0]), r) for r in rows.values())}
            for ieee, v in values.items():
                have = [r for name, rr in storage.dump(path).items() if name.startswith("attributes_cache") for r in rr if r[0] == ieee and v in r]
                w.check(have, "not-flushed", lambda: f"the value {v} that {ieee} reported before the shutdown is not in the database ({flat.get(ieee)})")
                w.stats["flushed"] += 1
            values.clear()
        elif fault or not cfg["db"]:
            values.clear()
        await asyncio.sleep(op["dt"])
        w.stats["quiet_hours"] += op["dt"] > 3600
        w.check(len(lost) == nl, "connection-lost", "connection_lost is announced after the shutdown")

    def on_rx(rx):
        d = rx.dev
        if d in sims and int(rx.cluster) == 6 and s["running"]:
            f = W.Zcl.parse(bytes(rx.data))
            if f.cmd == W.REPORT:
                values[str(R.eui(d.ieee))] = int.from_bytes(f.payload[3:7], "little")

    radio.on_rx.append(on_rx)

    for op in plan["ops"]:
        k = op["op"]
        w.log("op", k)
        if k == "start":
            if not s["running"]:
                if s["app"] is None and s["attempt"]:
                    w.stats["reopened"] += 1
                await start(op)
            continue
        if k == "swap" or k == "unform":
            if s["running"]:
                continue
            if k == "swap":
                radio.net, radio.node = R.default_network({"epid": 0x1100 + op["n"], "pan_id": 0x1000 + op["n"] % 1000, "key": f"{op['n']:032x}", "channel": 11 + op["n"] % 16})
            else:
                radio.net = None
            continue
        if k in ("stop", "stop_mid"):
            if s["app"] is not None and (s["running"] or k == "stop"):
                await stop(op, k == "stop_mid")
            continue
        if not s["running"]:
            if k == "run":
                await asyncio.sleep(op["dt"])
            continue
        app = s["app"]
        if k == "run":
            await asyncio.sleep(op["dt"])
        elif k == "report" and sims:
            d = sims[op["n"] % len(sims)]
            d.report(1, 6, [(0x4001 + 0 * op["n"], 0x23, W.u32(op["n"] + 70000))], lossy=False)
            if op["n"] % 3:
                await asyncio.sleep([0, 0.3, 2][op["n"] % 3])
        elif k == "feed_fail":
            if cfg["wd"] and not s["feedfail"]:
                exc = make(op["kind"])
                radio.fail.setdefault("watchdog_feed", []).append(exc)
                s["expect_lost"].append(("feed", exc))
                await asyncio.sleep(op["dt"])
        elif k == "load_fail":
            radio.fail["load_network_info"] = [make(op["kind"])]
        elif k == "outage":
            s["down"] = True
            await asyncio.sleep(op["dt"])
            s["down"] = False
            radio.fail.clear()
        elif k == "lost":
            exc = make(op["kind"])
            s["expect_lost"].append(("lib", exc))
            app.connection_lost(exc)
        else:
            if k != "report":
                raise HarnessError(k)
    w.sample = {"config": {k: cfg[k] for k in ("db", "wd", "nb", "topo", "ota", "escan", "validate", "formed")}, "operations": [o["op"] for o in plan["ops"]], "radio_calls": [x[1] for x in list(radio.ops)[:12]]}
    if s["app"] is not None:
        await stop({"db": True, "disc": None, "dbfault": None, "dt": 21600, "at": 0, "slow": 0})

# ---- probing ----

OVERRIDES = [{"baudrate": 57600}, {"baudrate": 115200}, {"baudrate": 230400, "flow_control": "hardware"}, {"flow_control": "software"}, {"flow_control": None}, {"path": "/dev/other"}]


def gen_probe(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 2, 4])):
        ops.append({"op": "probe", "at": rng.choice([0, 0, 0.5, 3]), "base": rng.choice([{}, {}, {"baudrate": 57600}, {"flow_control": "software"}]), "path": f"/dev/tty{rng.randrange(2)}",
                    "over": [rng.randrange(len(OVERRIDES)) for _ in range(rng.choice([0, 1, 2, 4, 6]))], "fail": [rng.choice([None, "conn", "timeout", "runtime", "perm", "value", "api", "reset"]) if rng.random() < 0.75 else None for _ in range(8)],
                    "lat": [rng.choice([0, 0.1, 1, 20]) for _ in range(8)], "cancel": rng.choice([0, 0.05, 1, 15]) if rng.random() < 0.2 else None, "disc": rng.choice([0, 0, 0.5])})
    return {"cfg": {}, "ops": ops}


async def run_probe(w, plan):
    import zigpy.config as conf
    import zigpy.exceptions as ze
    from sim import radio as R

    async def one(i, op):
        await asyncio.sleep(op["at"])
        tried, closed = [], []

        class Probed(R.SimApp):
            _probe_configs = [OVERRIDES[k] for k in op["over"]]

            async def connect(self):
                n = len(tried)
                tried.append(self)
                w.log("connect", i, n)
                await asyncio.sleep(op["lat"][n % 8])
                kind = op["fail"][n % 8]
                if kind is not None:
                    w.stats["fault_probe_" + kind] += 1
                    raise {"conn": ConnectionError("no"), "reset": ConnectionResetError(errno.ECONNRESET, "reset"), "perm": OSError(errno.EACCES, "denied"), "timeout": asyncio.TimeoutError(),
                           "runtime": RuntimeError("boom"), "value": ValueError("odd"), "api": ze.APIException("api")}[kind]

            async def disconnect(self):
                w.check(self in tried, "probe", "disconnected without an attempt to connect")
                closed.append(self)
                w.log("disconnect", i, len(closed))
                await asyncio.sleep(op["disc"])

        given = {conf.CONF_DEVICE_PATH: op["path"], **op["base"]}
        before = dict(given)
        sub = asyncio.ensure_future(Probed.probe(given))
        cancelled = False
        try:
            if op["cancel"] is not None:
                done, _ = await asyncio.wait([sub], timeout=op["cancel"])
                if not done:
                    sub.cancel()
                    cancelled = True
                    w.stats["probe_cancelled"] += 1
            res = await sub
        except asyncio.CancelledError:
            w.check(cancelled, "probe", "the probe was cancelled by itself")
            res = None
        w.check(given == before, "probe", lambda: f"the settings {before} given to the probe were changed to {given}")
        want = []
        for extra in [{}, *Probed._probe_configs]:
            c = conf.SCHEMA_DEVICE({**before, **extra})
            if c not in want:
                want.append(c)
        had = [dict(a.config[conf.CONF_DEVICE]) for a in tried]
        w.check(had == [dict(conf.SCHEMA_DEVICE(dict(c))) for c in want[: len(had)]], "probe", lambda: f"tried {had} instead of {want}")
        w.check(sorted(map(id, tried)) == sorted(map(id, closed)), "probe", lambda: f"{len(tried)} attempts to connect, {len(closed)} disconnected")
        w.state("probe", len(tried), cancelled, type(res).__name__)
        if cancelled:
            return
        works = next((n for n in range(len(want)) if op["fail"][n % 8] is None), None)
        if works is None:
            w.stats["probe_none"] += 1
            w.check(res is False and len(tried) == len(want), "probe", lambda: f"none of {want} connects, the probe returned {res!r} after {len(tried)} attempts")
        else:
            w.stats["probe_found"] += 1
            w.check(res == want[works] and len(tried) == works + 1, "probe", lambda: f"{want[works]} connects first, the probe returned {res!r} after {len(tried)} attempts")

    await asyncio.gather(*(one(i, op) for i, op in enumerate(plan["ops"])))
    await asyncio.sleep(60)
    left = [x for x in asyncio.get_running_loop().tasks_in_order() if x is not asyncio.current_task() and not x.done()]
    w.check(not left, "probe", lambda: f"still running: {left}")


PARTS = [Part("life", 1, generate, run, max_steps=400_000), Part("probe", 0.08, gen_probe, run_probe)]
