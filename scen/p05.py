"""P05: joining devices end up fully and correctly interviewed."""
import asyncio

from scen import common
from sim.runner import Part

PROPERTY = "P05"
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 200000}
BATCH = 25
REAL = ["ControllerApplication", "Device", "Endpoint", "ZDO and ZCL request path", "PersistingListener (restart part)", "quirks lookup"]
STUBS = ["radio and devices (SimRadio/SimDevice, struct-based codec)", "clock and scheduler", "SQLite thread (runs in the loop)"]
RULE = ("a run = 1..4 devices with random descriptors joining, announcing, changing address, going offline, refusing "
        "descriptor requests, reporting, with message loss/duplication/delay/reordering, delivery errors, and restarts; "
        "then faults stop and each device speaks every 60 s; distinct = distinct sequence of radio/device/listener events")
STATES = "per device (in app, has descriptor, endpoints known, initialized, initializing) when time advances"
PROBES = ["init_failed", "init_ok", "rejoin_mid_interview", "fault_drop_rsp", "fault_dup_rsp", "ep_inactive", "restarts", "interviews_ended"]
ASSUMPTIONS = ["network addresses are unique", "a device's descriptors do not change between joins"]


def generate(rng, tier):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    db = rng.random() < 0.3
    devs = [common.device_spec(rng) for _ in range(n)]
    for d in devs:
        for e in d["eps"]:
            if rng.random() < 0.12:
                d.setdefault("inactive", []).append(int(e))
        if len(d.get("inactive", [])) == len(d["eps"]) and rng.random() < 0.8:
            d["inactive"] = []
        r = rng.random()
        if r < 0.15:
            d["solo_attrs"] = True  # answers only one attribute per read
        elif r < 0.25:
            first = next(iter(d["eps"].values()))
            first["attrs"].pop(rng.choice(["0:4", "0:5"]), None)
        if rng.random() < 0.3:
            d["pad_errors"] = True  # its error answers carry a body of junk
    ops = []
    for i in range(n):
        ops.append({"op": rng.choice(["announce", "join", "join", "radio_join_then_announce"]), "dev": i, "at": rng.choice([0, 0, 0.5, 1, 5])})
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            at = round(rng.choice([0.25, 0.5, 1, 2, 3, 6, 12, 30, 60, 150]) * rng.choice([1, 1, 1.5]), 2)
            k = rng.choice(["announce", "announce", "renwk", "report", "offline", "status", "status", "zdo_traffic", "join"])
            op = {"op": k, "dev": i, "at": at}
            if k == "offline":
                op["len"] = rng.choice([1, 10, 40, 100])
                op["error"] = rng.random() < 0.5
            elif k == "status":
                op["at"] = 0
                op["key"] = rng.choice(["node_desc", "active_ep", "simple_desc", "silent"])
                op["list"] = [rng.choice([0x80, 0x81, 0x84, 0x85, 0x8B]) for _ in range(rng.choice([1, 2, 4, 6]))]
                op["cluster"] = rng.choice([2, 4, 5])
                op["len"] = rng.choice([5, 30, 120])
            ops.append(op)
    if db:
        for _ in range(rng.choice([1, 1, 2])):
            ops.append({"op": "restart", "dev": 0, "at": rng.choice([0.5, 1, 2, 4, 10, 40, 100])})
    return {"cfg": {**common.net(rng), "db": db, "devs": devs, "source_routing": rng.random() < 0.2,
                    "maxc": rng.choice([1, 2, 8])}, "ops": ops}


async def run(w, plan):
    from sim import radio as R
    from sim import storage, wire as W
    import zigpy.config as conf
    from zigpy.endpoint import Status as EpStatus

    cfg = plan["cfg"]
    radio = R.SimRadio(w, cfg)
    storage.attach(w, delay=0.0)
    devs = []
    for i, spec in enumerate(cfg["devs"]):
        d = radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), spec, f"d{i}"))
        d.used_nwks = 0
        for e in spec.get("inactive", []):
            d.status_script[f"simple_desc{e}"] = [W.ZDO_NOT_ACTIVE] * 200
        if spec.get("solo_attrs"):
            def hook(tx, f, e, d=d):
                if not f.cluster_specific and f.cmd == W.READ and len(f.payload) > 2:
                    return True  # silently ignores multi-attribute reads
                return False
            d.zcl_hook = hook
        devs.append(d)
    ie = {R.eui(d.ieee): d for d in devs}
    rec_all = []
    dbpath = f"{w.scratch}/z.db" if cfg["db"] else None
    conf_ = R.base_config(**{conf.CONF_DATABASE: dbpath, conf.CONF_SOURCE_ROUTING: cfg["source_routing"],
                             conf.CONF_MAX_CONCURRENT_REQUESTS: cfg["maxc"]})
    st = {"app": None, "gen": 0}

    def model_values(d, attr):
        vals = set()
        for eid, e in d.eps.items():
            if eid in d.spec.get("inactive", []):
                continue
            v = e["attrs"].get((0, attr))
            if v is not None and 0 in e["ins"]:
                vals.add(v[1][1:].decode())
        return vals

    faulty = bool(cfg["rates"]) or any(o["op"] in ("offline", "status", "renwk") for o in plan["ops"])

    def check_initialized(dev, d, how):
        n = d.name
        if dev.node_desc is None:
            w.violate("announced-without-node-descriptor", f"{n}: {how}")
            return
        w.check(dev.node_desc.serialize() == d.node_desc_bytes, "wrong-node-descriptor",
                lambda: f"{n}: {dev.node_desc.serialize().hex()} instead of {d.node_desc_bytes.hex()}")
        got = sorted(k for k in dev.endpoints if k != 0)
        want = sorted(k for k in d.eps if k != 0)
        if got != want:
            w.violate("wrong-endpoints", f"{n}: {how}: endpoints {got} instead of {want}")
            return
        for k in want:
            ep, e = dev.endpoints[k], d.eps[k]
            if ep.status == EpStatus.NEW:
                w.violate("announced-with-unknown-endpoint", f"{n}: {how}: endpoint {k} was never queried")
                continue
            if k in d.spec.get("inactive", []):
                w.check(not ep.in_clusters and not ep.out_clusters and ep.profile_id is None, "inactive-endpoint-content",
                        lambda: f"{n} ep {k} is inactive but has {ep!r}")
                continue
            w.check(ep.profile_id == e["profile"] and int(ep.device_type) == e["dev_type"], "wrong-simple-descriptor",
                    lambda: f"{n} ep {k}: profile {ep.profile_id} type {ep.device_type}")
            w.check(sorted(ep.in_clusters) == sorted(set(e["ins"])) and sorted(ep.out_clusters) == sorted(set(e["outs"])),
                    "wrong-clusters", lambda: f"{n} ep {k}: in {sorted(ep.in_clusters)} out {sorted(ep.out_clusters)} "
                    f"instead of {sorted(e['ins'])} {sorted(e['outs'])}")
        for nm, attr in (("manufacturer", 4), ("model", 5)):
            vals = model_values(d, attr)
            got = getattr(dev, nm)
            # a device that refused nothing is asked until it has answered
            if got is None:
                w.check(not vals, f"missing-{nm}", lambda: f"{n}: {how}: {nm} unknown although the device reports {vals}")
            else:
                w.check(got in vals, f"wrong-{nm}", lambda: f"{n}: {how}: {nm} {got!r} instead of {vals}")

    class Listener:
        def __init__(self):
            self.gen = st["gen"]

        def known(self, dev):
            # what a stopped application still says does not count
            return ie.get(dev.ieee) if self.gen == st["gen"] else None

        def device_initialized(self, dev):
            d = self.known(dev)
            if d is None:
                return
            w.log("initialized", d.name)
            w.stats["init_ok"] += 1
            d.last_outcome = ("ok", w.now)
            d.pending_since = None
            check_initialized(dev, d, "device_initialized")
            w.check(st["app"] is None or st["app"].devices.get(dev.ieee) is dev, "initialized-not-tracked",
                    lambda: f"{d.name}: the announced object is not the tracked device")

        def raw_device_initialized(self, dev):
            d = self.known(dev)
            if d is not None:
                check_initialized(dev, d, "raw_device_initialized")

        def device_init_failure(self, dev):
            d = self.known(dev)
            if d is None:
                return
            w.log("init_failure", d.name)
            w.stats["init_failed"] += 1
            d.last_outcome = ("failed", w.now)
            d.pending_since = None
            w.check(faulty, "failed-without-cause", lambda: f"{d.name}: the interview failed although nothing went wrong")

        def device_joined(self, dev):
            d = self.known(dev)
            if d is not None:
                d.pending_since = w.now
                d.joined = True

    for d in devs:
        d.last_outcome = None
        d.pending_since = None
        d.interview = None
        d.joined = False

    async def boot():
        app = R.SimApp(conf_)
        app.sim_radio = radio
        app.add_listener(Listener())
        await app._load_db()
        st["app"] = app
        await app.startup()

    await boot()

    def quiet():
        app = st["app"]
        for d in devs:
            dev = app.devices.get(R.eui(d.ieee))
            if dev is None:
                w.state(d.name, None)
                d.interview = None
            else:
                w.state(d.name, dev.node_desc is not None, len(dev.endpoints), dev.is_initialized, dev.initializing)
                was = d.interview
                if was is not None and was[0] is dev and not dev.initializing:
                    w.stats["interviews_ended"] += 1
                    w.check(d.last_outcome is not None and d.last_outcome[1] >= was[1], "ended-silently",
                            lambda: f"{d.name}: an interview running at {was[1]:.3f} ended, the last thing announced was {d.last_outcome}")
                d.interview = (dev, w.now) if dev.initializing else None

    w.on_quiet = quiet

    def speak(d, how, lossy=True):
        app = st["app"]
        if st.get("restarting"):
            return
        if how == "join":
            # the radio firmware reports the association itself
            try:
                app.handle_join(R.t.NWK(d.nwk), R.eui(d.ieee), R.t.NWK(0))
            except Exception as e:  # noqa: BLE001
                from sim.core import frames_of
                w.violate("join-raised", frames_of(e)[1])
        elif how == "announce":
            d.announce(lossy=lossy)
        elif how == "report":
            eid = next((k for k in d.eps if k not in d.spec.get("inactive", [])), None)
            if eid is None:
                d.announce(lossy=lossy)
            else:
                d.report(eid, d.eps[eid]["ins"][0], [(0xF000, 0x20, b"\x01")], lossy=lossy)

    async def op_task(op):
        if op["at"]:
            await asyncio.sleep(op["at"])
        d = devs[op["dev"]]
        k = op["op"]
        w.log("op", k, d.name)
        if k in ("announce", "join", "report"):
            if d.reachable():
                if k == "report" and not d.joined:
                    return
                dev = st["app"].devices.get(R.eui(d.ieee))
                if dev is not None and dev.initializing:
                    w.stats["rejoin_mid_interview"] += 1
                speak(d, k)
        elif k == "radio_join_then_announce":
            speak(d, "join")
            w.loop.call_later(w.dec.uniform("annce.delay", 0.0, 1.0, grid=0.25), speak, d, "announce")
        elif k == "renwk":
            if d.online:
                d.used_nwks += 1
                d.nwk = common.nwk_of(op["dev"]) + d.used_nwks
                speak(d, "announce")
        elif k == "offline":
            d.online = False
            d.offline_error = op["error"]
            w.stats["fault_offline"] += 1
            await asyncio.sleep(op["len"])
            d.online = True
        elif k == "status":
            if op["key"] == "silent":
                d.no_answer.add(op["cluster"])
                w.stats["fault_silent"] += 1
                await asyncio.sleep(op["len"])
                d.no_answer.discard(op["cluster"])
            else:
                key = op["key"]
                if key == "simple_desc":
                    key += str(next(iter(d.eps)))
                d.status_script[key] = list(op["list"]) + d.status_script.get(key, [])
                w.stats["fault_status"] += 1
        elif k == "zdo_traffic":
            if d.reachable() and d.joined:
                d.send_zdo(0x0006, W.u16(0) + W.u16(0x0104) + W.u8(0) + W.u8(0))
        elif k == "restart":
            if st.get("restarting"):
                return
            st["restarting"] = True
            st["gen"] += 1
            w.stats["restarts"] += 1
            w.on_quiet = None
            app = st["app"]
            radio.connected = False
            for t_ in asyncio.get_running_loop().tasks_in_order():
                nm = getattr(t_.get_coro(), "__qualname__", "")
                if nm.startswith(("Device.", "ControllerApplication.", "retry")):
                    t_.cancel()
            await app.shutdown()
            for x in devs:
                x.pending_since = x.interview = None
            await boot()
            w.on_quiet = quiet
            st["restarting"] = False

    # restarts replace the application under the other operations' feet, which
    # is fine: they only talk to the devices
    tasks = [asyncio.create_task(op_task(o)) for o in plan["ops"]]
    await asyncio.wait(tasks)
    for tsk in tasks:
        tsk.result()
    # bound on one interview: 5 tries, each request at most 28 s + send
    await asyncio.sleep(w.dec.uniform("pause", 0.0, 40.0, grid=10))
    while st.get("restarting"):
        await asyncio.sleep(1)
    # ---- faults stop
    radio.faults_on = False
    for d in devs:
        d.online = True
        d.no_answer.clear()
        for k in list(d.status_script):
            if k.startswith("simple_desc") and int(k[11:]) in d.spec.get("inactive", []):
                continue
            d.status_script[k] = []
    w.log("heal")
    for r in range(5):
        for i, d in enumerate(devs):
            how = "announce" if r == 0 or not d.joined else ["announce", "report"][w.dec.pick(f"speak{i}", 2)]
            speak(d, how, lossy=False)
        await asyncio.sleep(60)
    app = st["app"]
    for d in devs:
        dev = app.devices.get(R.eui(d.ieee))
        if dev is None:
            w.violate("never-tracked", f"{d.name} announced itself but the application does not know it")
            continue
        if all(k in d.spec.get("inactive", []) for k in d.eps):
            w.stats["ep_inactive"] += 1
        if not dev.is_initialized:
            w.violate("never-initialized", f"{d.name} is still not initialized {300} s after the network healed: {dev!r}")
        else:
            check_initialized(dev, d, "final state")
            w.check(d.last_outcome is not None and d.last_outcome[0] == "ok", "not-announced",
                    lambda: f"{d.name} is initialized but the last thing announced was {d.last_outcome}")
        w.check(not dev.initializing, "init-still-running", lambda: f"{d.name}: interview still running")
        w.check(dev.nwk == d.nwk, "wrong-address", lambda: f"{d.name}: {dev.nwk} instead of {d.nwk:#06x}")
        w.check(d.pending_since is None, "interview-vanished",
                lambda: f"{d.name}: the join at {d.pending_since} ended neither in success nor in a reported failure")
    w.on_quiet = None
    if cfg["db"]:
        await app.shutdown()
    w.sample = {"cfg": {k: cfg[k] for k in ("rates", "lat", "db")}, "devices": len(devs), "ops": plan["ops"][:5]}


PARTS = [Part("join", 1, generate, run, max_steps=300_000)]
