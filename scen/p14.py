"""P14: network backups never lose or rewrite a network."""
import asyncio
import copy
import datetime
import json
import sqlite3

from sim.runner import Part

PROPERTY = "P14"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 250000}
BATCH = 50
REAL = ["zigpy.backups", "zigpy.state", "backup tables of zigpy.appdb on SQLite", "ControllerApplication startup/shutdown"]
STUBS = ["radio (its settings change behind zigpy's back; reads and writes fail or take time)", "clock and scheduler", "SQLite worker thread"]
RULE = ("a run = 6..40 operations on one of 3..5 networks that differ in one field or all: the radio's settings change, backups created (by hand, "
        "periodically with failing reads), added (imported, incomplete, same time), restored with write and read failures, live settings "
        "mutated in place, clock jumps, application restarts; distinct = distinct sequence of created/removed backups and radio calls")
STATES = "(backups kept, networks kept, kind of change) after each operation"
PROBES = ["created", "replaced", "kept_rollback", "incomplete", "restored", "restore_refused", "restore_failed", "failed_reads", "periodic", "restarts", "mutated", "roundtrips", "foreign", "clock_jumps"]
ASSUMPTIONS = ["the open coordinator format has no field for the trust centre key's sequence and received counter nor for the network key's partner",
               "after a restart a backup may be superseded by a later one of the same network"]

IDENT = ["nwk", "logical", "ieee", "epid", "pan", "update", "manager", "channel", "security", "tckey", "key"]
BASE = {"nwk": 0, "logical": 0, "ieee": 0x00124B0012345678, "epid": 0x1122334455667788, "pan": 0x1A62, "update": 1, "manager": 0, "channel": 15,
        "security": 5, "tckey": "5a6967426565416c6c69616e63653039", "key": "00112233445566778899aabbccddeeff"}
ALT = {"nwk": [0x1234, 0x00FE], "logical": [1], "ieee": [0x00124B00000000AA, 0xFF00000000000001], "epid": [0x8877665544332211, 0xFF], "pan": [0x1A63, 1, 0xFFFE, 0x621A],
       "update": [0, 2, 254], "manager": [0x1234, 0x00AB], "channel": [11, 26, 20], "security": [0, 6], "tckey": ["aa" * 16], "key": ["cc" * 16, "ffeeddccbbaa99887766554433221100"]}
BROKEN = [("ieee", 0xFFFFFFFFFFFFFFFF), ("epid", 0xFFFFFFFFFFFFFFFF), ("pan", 0), ("pan", 0xFFFF), ("channel", 0), ("channel", 10), ("channel", 27), ("key", "ff" * 16)]


def gen_net(rng, base):
    n = dict(base)
    for f in rng.sample(IDENT, rng.choice([1, 1, 1, 2, len(IDENT)])):
        n[f] = rng.choice(ALT[f])
    return n


def gen_state(rng, nets):
    devs = [0x00158D0000000000 + rng.choice([1, 2, 3, 255, 256, 0x123456]) * (1 if rng.random() < 0.7 else 0x10001) for _ in range(rng.choice([0, 1, 3, 6]))]
    devs = list(dict.fromkeys(devs))
    rng.shuffle(devs)
    return {"net": rng.randrange(len(nets)), "counter": rng.choice([0, 1, 100, 100, 101, 5000, 10100, 0xFFFF0000]),
            "seq": rng.choice([0, 0, 1, 255]), "tc_tx": rng.choice([0, 7]), "tc_rx": rng.choice([0, 9]), "tc_ieee": rng.choice([BASE["ieee"], 0x0102030405060708]),
            "children": [d for d in devs if rng.random() < 0.5], "nwks": [[d, 0x2000 + (d & 0xFFF)] for d in devs if rng.random() < 0.6],
            "keys": [[d, rng.choice([0, 5, 70000]), rng.choice([0, 6]), rng.choice([0, 3])] for d in devs if rng.random() < 0.4],
            "mask": rng.choice([[15], [11, 15, 26], list(range(11, 27))]), "stack": rng.choice([{}, {"zstack": {"tclk_seed": "aabb"}}, {"ezsp": {"x": [1, 2]}}]),
            "meta": rng.choice([{}, {"zigpy": {"a": [1]}}, {"date": "2021-02-16T22:29:28.228Z"}]), "source": rng.choice([None, "zigpy-x@1.2.3"]),
            "model": rng.choice([None, "Stick"]), "manufacturer": rng.choice([None, "Maker"]), "version": rng.choice([None, "1.2"])}


OPTIONAL = ["node", "nwk", "network", "tc_counter", "manager", "seqs", "time", "stack", "child", "z2m"]


def generate(rng, tier):
    nets = [dict(BASE)]
    for _ in range(rng.choice([1, 2, 2, 4])):
        nets.append(gen_net(rng, rng.choice(nets)))
    same = rng.random() < 0.4  # concentrate on one network

    def st():
        s = gen_state(rng, nets)
        if same and rng.random() < 0.8:
            s["net"] = 0
        return s

    ops = []
    for _ in range(rng.choice([6, 12, 20, 40])):
        k = rng.choice(["set", "set", "create", "create", "create", "add", "add", "readd", "restore", "restore", "mutate", "mutate", "restart",
                        "wait", "start", "stop", "json", "jump", "both", "badradio"])
        op = {"op": k, "dt": rng.choice([0, 0, 1, 60])}
        if k in ("set", "add", "badradio"):
            op["s"] = st()
        if k == "set" and rng.random() < 0.4:
            op["only_counter"] = True
        if k == "add":
            op["broken"] = rng.choice(BROKEN) if rng.random() < 0.25 else None
            op["when"] = rng.choice(["now", "now", "1970", "1970", "past"])
            op["via"] = rng.choice(["obj", "json", "open"])
        if k in ("create", "restore", "both", "start") and rng.random() < 0.3:
            op["fail"] = [rng.choice(["load", "load", "write"]) for _ in range(rng.choice([1, 1, 3]))]
        if k == "create":
            op["devices"] = rng.random() < 0.5
        if k in ("readd", "restore", "json"):
            op["i"] = rng.randrange(20)
        if k == "json" and rng.random() < 0.6:
            # what other programs leave out of their backups
            op["without"] = rng.choice([["internal"], rng.sample(OPTIONAL, rng.choice([1, 2, 4]))])
        if k == "restore":
            op["inc"] = rng.choice([None, None, 0, 1, 10000])
            op["new"] = rng.random() < 0.6
            op["allow"] = rng.random() < 0.3
            op["broken"] = rng.choice(BROKEN) if rng.random() < 0.2 else None
        if k == "mutate":
            op["how"] = rng.randrange(9)
        if k == "wait":
            op["n"] = rng.choice([1, 2, 5])
        if k == "start":
            op["period"] = rng.choice([60, 600, 86400])
        if k == "jump":
            op["s"] = rng.choice([-86400, -3600, -1, 1, 86400])
        ops.append(op)
    return {"cfg": {"nets": nets, "inplace": rng.random() < 0.4, "first": st(), "raise": rng.random() < 0.1, "db_delay": rng.choice([0, 0, 0.01])}, "ops": ops}


async def run(w, plan):
    from sim import radio as R, storage
    import zigpy.backups as B
    import zigpy.config as conf
    import zigpy.exceptions
    import zigpy.state as S
    import zigpy.zdo.types as zdo_t
    t = R.t

    cfg = plan["cfg"]
    nets = cfg["nets"]
    radio = R.SimRadio(w, {"inplace": cfg["inplace"]})
    storage.attach(w, delay=cfg["db_delay"])
    dbconf = R.base_config(**{conf.CONF_DATABASE: f"{w.scratch}/z.db"})

    def build(s, broken=None):
        n = dict(nets[s["net"]])
        if broken:
            n[broken[0]] = broken[1]
        net = S.NetworkInfo(
            extended_pan_id=t.ExtendedPanId(R.eui(n["epid"])), pan_id=t.PanId(n["pan"]), nwk_update_id=t.uint8_t(n["update"]),
            nwk_manager_id=t.NWK(n["manager"]), channel=t.uint8_t(n["channel"]), channel_mask=t.Channels.from_channel_list(s["mask"]),
            security_level=t.uint8_t(n["security"]),
            network_key=S.Key(key=t.KeyData(bytes.fromhex(n["key"])), tx_counter=t.uint32_t(s["counter"]), rx_counter=t.uint32_t(0), seq=t.uint8_t(s["seq"])),
            tc_link_key=S.Key(key=t.KeyData(bytes.fromhex(n["tckey"])), tx_counter=t.uint32_t(s["tc_tx"]), rx_counter=t.uint32_t(s["tc_rx"]), seq=t.uint8_t(0),
                              partner_ieee=R.eui(s["tc_ieee"])),
            key_table=[S.Key(key=t.KeyData(bytes([i] * 16)), tx_counter=t.uint32_t(k[1]), rx_counter=t.uint32_t(k[2]), seq=t.uint8_t(k[3]), partner_ieee=R.eui(k[0]))
                       for i, k in enumerate(s["keys"])],
            children=[R.eui(c) for c in s["children"]], nwk_addresses={R.eui(i): t.NWK(a) for i, a in s["nwks"]},
            stack_specific=copy.deepcopy(s["stack"]), metadata=copy.deepcopy(s["meta"]), source=s["source"])
        node = S.NodeInfo(nwk=t.NWK(n["nwk"]), ieee=R.eui(n["ieee"]), logical_type=zdo_t.LogicalType(n["logical"]), model=s["model"],
                          manufacturer=s["manufacturer"], version=s["version"])
        return net, node

    def key(k):
        return (bytes(k.key), int(k.tx_counter), int(k.rx_counter), int(k.seq), int_of(k.partner_ieee))

    def int_of(e):
        return int.from_bytes(e.serialize(), "little")

    def netflat(n):
        """Everything a backup says about a network, independent of object identity."""
        return {"epid": int_of(n.extended_pan_id), "pan": int(n.pan_id), "update": int(n.nwk_update_id), "manager": int(n.nwk_manager_id), "channel": int(n.channel),
                "mask": int(n.channel_mask), "security": int(n.security_level), "key": key(n.network_key), "tc": key(n.tc_link_key),
                "keys": sorted(key(k) for k in n.key_table), "children": sorted(int_of(c) for c in n.children),
                "nwks": sorted((int_of(i), int(a)) for i, a in n.nwk_addresses.items()), "stack": json.dumps(n.stack_specific, sort_keys=True),
                "meta": json.dumps(n.metadata, sort_keys=True), "source": n.source}

    def nodeflat(n):
        return {"ieee": int_of(n.ieee), "nwk": int(n.nwk), "logical": int(n.logical_type), "model": n.model, "manufacturer": n.manufacturer, "version": n.version}

    def flat(b):
        return {"time": b.backup_time, "net": netflat(b.network_info), "node": nodeflat(b.node_info)}

    def ident(f):
        n, d = f["net"], f["node"]
        return (d["nwk"], d["logical"], d["ieee"], n["epid"], n["pan"], n["update"], n["manager"], n["channel"], n["security"], n["tc"][0], n["key"][0])

    def counter(f):
        return f["net"]["key"][1]

    def complete(f):
        n = f["net"]
        return (f["node"]["ieee"] != 2**64 - 1 and n["epid"] != 2**64 - 1 and n["pan"] not in (0, 0xFFFF) and 11 <= n["channel"] <= 26
                and n["key"][0] != b"\xff" * 16)

    def foreign(oj, want, without):
        """An open coordinator backup without some optional parts, and what it must be read as."""
        o, want = copy.deepcopy(oj), copy.deepcopy(want)
        inner, n, d = o["metadata"]["internal"], want["net"], want["node"]
        lost = [x for x in OPTIONAL if x != "internal"] if "internal" in without else without
        meta = json.loads(n["meta"])
        for x in lost:
            if x == "node":
                inner.pop("node")
                d.update(nwk=0, logical=0, model=None, manufacturer=None, version=None)
            elif x == "nwk":
                inner.get("node", {}).pop("nwk", None)
                d["nwk"] = 0
            elif x == "network":
                inner.pop("network")
                n.update(manager=0, tc=(b"ZigBeeAlliance09", 0, 0, 0, d["ieee"]))
            elif x == "tc_counter":
                inner.get("network", {}).get("tc_link_key", {}).pop("frame_counter", None)
                n["tc"] = (n["tc"][0], 0, *n["tc"][2:])
            elif x == "manager":
                inner.get("network", {}).pop("nwk_manager", None)
                n["manager"] = 0
            elif x == "seqs":
                inner.pop("link_key_seqs")
                n["keys"] = sorted((*k[:3], 0, k[4]) for k in n["keys"])
            elif x == "time":
                inner.pop("creation_time")
                if "date" not in meta:
                    want["time"] = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
            elif x == "stack":
                o.pop("stack_specific")
                n["stack"] = "{}"
            elif x == "child":
                for dv in o["devices"]:
                    dv.pop("is_child")
                n["children"] = sorted(int(dv["ieee_address"], 16) for dv in o["devices"])
        if "internal" in without:
            o["metadata"].pop("internal")
            n["meta"] = "{}"
            want["time"] = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
        elif "z2m" in without:
            inner["date"] = "2024-05-06T07:08:09.123Z"
            n["meta"] = json.dumps({**meta, "date": inner["date"]}, sort_keys=True)
            want["time"] = datetime.datetime(2024, 5, 6, 7, 8, 9, 123000, tzinfo=datetime.timezone.utc)
        return o, want

    # ---- the model
    model = []  # flat backups in order
    events = []  # expected, then compared with got
    got = []
    dropped = []  # not loaded at some restart although never removed
    st = {"app": None, "mode": None}

    def m_add(f):
        if not complete(f):
            w.stats["incomplete"] += 1
            return
        for o in model[:]:
            if ident(o) == ident(f):
                if counter(f) >= counter(o):
                    w.stats["replaced"] += 1
                    model.remove(o)
                    events.append(("removed", o))
                else:
                    w.stats["kept_rollback"] += 1
        events.append(("created", f))
        model.append(f)
        w.stats["created"] += 1

    class L:
        def network_backup_created(self, b):
            got.append(("created", flat(b)))
            w.log("created", int(b.network_info.channel), int(b.network_info.network_key.tx_counter))
            if cfg["raise"]:
                raise RuntimeError("listener")

        def network_backup_removed(self, b):
            got.append(("removed", flat(b)))
            w.log("removed", int(b.network_info.channel), int(b.network_info.network_key.tx_counter))

    def utc():
        return w.wall()

    loads = []

    def on_load(app, net, node):
        loads.append(w.now)
        if st["mode"] is None or app is not st["app"]:
            return
        m_add({"time": utc(), "net": netflat(net), "node": nodeflat(node)})

    radio.on_load.append(on_load)

    def same_time(a, b):
        return abs((a - b).total_seconds()) < 0.002

    def compare(a, b):
        return a["net"] == b["net"] and a["node"] == b["node"] and same_time(a["time"], b["time"])

    def show(f):
        return f"<{f['time'].isoformat()} ch{f['net']['channel']} pan{f['net']['pan']:#x} upd{f['net']['update']} ctr{counter(f)} {f['net']['children']}>"

    def check(what):
        app = st["app"]
        have = [flat(b) for b in app.backups.backups]
        ok = len(have) == len(model) and all(compare(a, b) for a, b in zip(have, model))
        if not ok:
            ok_order = len(have) == len(model) and all(any(compare(a, b) for b in model) for a in have)
            rule = "order" if ok_order else "frozen" if len(have) == len(model) else "kept"
            w.violate(rule, f"after {what} the backups are {[show(h) for h in have]}, expected {[show(m) for m in model]}"
                      + diff(have, model))
        e = list(events)
        g = list(got)
        events.clear(), got.clear()
        w.check(len(e) == len(g) and all(a[0] == b[0] and compare(a[1], b[1]) for a, b in zip(e, g)), "events",
                lambda: f"{what}: events {[(k, show(f)) for k, f in g]}, expected {[(k, show(f)) for k, f in e]}")
        w.check(all(complete(h) for h in have), "incomplete-kept", lambda: f"{[show(h) for h in have]}")
        mr = app.backups.most_recent_backup()
        w.check((mr is None) == (not model) and (mr is None or compare(flat(mr), model[-1])), "most-recent", what)
        w.state(len(model), len({ident(m) for m in model}), what)

    def diff(have, model):
        for a, b in zip(have, model):
            for part in ("net", "node"):
                for k in a[part]:
                    if a[part][k] != b[part][k]:
                        return f": {k} is {a[part][k]}, was {b[part][k]}"
        return ""

    def stored(what):
        """The rows of the closed database."""
        con = sqlite3.connect(f"{w.scratch}/z.db")
        try:
            name = max((r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE name LIKE 'network_backups_v%'")), key=lambda n: int(n.rsplit("v", 1)[1]))
            rows = [flat(B.NetworkBackup.from_dict(json.loads(r[0]))) for r in con.execute(f"SELECT backup_json FROM {name}")]
        finally:
            con.close()
        for h in rows:
            w.check(any(compare(h, m) for m in model + dropped), "stored-removed", lambda: f"after {what} {show(h)} is stored, the backups are {[show(m) for m in model]}")
        for m in model:
            w.check(any(compare(h, m) for h in rows), "not-stored", lambda: f"after {what} {show(m)} is not stored")

    async def boot(first=False):
        app = R.SimApp(dbconf)
        app.sim_radio = radio
        st["app"], st["mode"] = app, None
        await app._load_db()
        app.backups.add_listener(L())
        before = list(model)
        have = [flat(b) for b in app.backups.backups]
        for h in have:
            w.check(any(compare(h, m) for m in before + dropped), "restart-invented", lambda: f"restarting loads {show(h)}, before there were {[show(m) for m in before]}")
        for m in before:
            if not any(compare(h, m) for h in have):
                dropped.append(m)
                w.check(any(ident(h) == ident(m) and counter(h) >= counter(m) and h["time"] >= m["time"] for h in have), "restart-lost",
                        lambda: f"restarting lost {show(m)} of {[show(x) for x in before]}, there are {[show(h) for h in have]}")
        model[:] = have
        got.clear()
        await app.startup(auto_form=False)
        st["mode"] = "backups"
        return app

    radio.net, radio.node = build(cfg["first"])
    app = await boot(True)
    period = None  # (start time, period) of periodic backups
    made = []  # every backup object, for re-adding

    def fail(op):
        for k in op.get("fail") or ():
            name = {"load": "load_network_info", "write": "write_network_info"}[k]
            exc = w.dec.pick("exc", 3)
            radio.fail.setdefault(name, []).append([zigpy.exceptions.DeliveryError("fail"), asyncio.TimeoutError(), RuntimeError("fail")][exc])

    def nofail():
        radio.fail.clear()

    def nloads():
        return len(loads) + w.stats["fault_radio_load_network_info"]

    async def settle():
        # two-step: let the loop of periodic backups and the database run
        await asyncio.sleep(0)
        await asyncio.sleep(0.0131)

    for op in plan["ops"]:
        if op["dt"]:
            await asyncio.sleep(op["dt"] + 0.0113)
        k = op["op"]
        await settle()
        check("waiting")
        if k == "set":
            s = op["s"]
            if op.get("only_counter"):
                radio.net = radio.net.replace(network_key=radio.net.network_key.replace(tx_counter=t.uint32_t(s["counter"])))
            else:
                radio.net, radio.node = build(s)
        elif k == "badradio":
            nofail()
            keep = radio.net, radio.node
            radio.net, radio.node = build(op["s"], BROKEN[op["s"]["counter"] % len(BROKEN)])
            try:
                await app.backups.create_backup()
            finally:
                check("backing up an incomplete network")
                radio.net, radio.node = keep
        elif k == "create":
            fail(op)
            failing = bool(radio.fail.get("load_network_info"))
            try:
                b = await app.backups.create_backup(load_devices=op["devices"])
                w.check(not failing, "error-hidden", "create_backup succeeded although the radio failed")
                w.check(flat(b)["net"] == netflat(radio.net) and flat(b)["node"] == nodeflat(radio.node) and same_time(b.backup_time, utc()), "not-current",
                        lambda: f"create_backup returned {show(flat(b))}, the radio has {netflat(radio.net)}")
                made.append(b)
            except Exception as e:  # noqa: BLE001
                w.stats["failed_reads"] += 1
                if not failing:
                    w.violate("create-failed", repr(e))
            nofail()
            check("create")
        elif k == "both":
            fail({"fail": [x for x in op.get("fail") or () if x == "load"]})
            await asyncio.gather(app.backups.create_backup(), app.backups.create_backup(), return_exceptions=True)
            nofail()
            check("two creates")
        elif k == "add":
            net, node = build(op["s"], op["broken"])
            when = {"now": utc(), "1970": datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc), "past": utc() - datetime.timedelta(days=3, seconds=len(made))}[op["when"]]
            b = B.NetworkBackup(backup_time=when, network_info=net, node_info=node)
            if op["via"] == "json":
                b = B.NetworkBackup.from_dict(json.loads(json.dumps(b.as_dict())))
            elif op["via"] == "open":
                j = json.loads(json.dumps(b.as_open_coordinator_json()))
                if op["when"] == "1970":
                    j["metadata"]["internal"].pop("creation_time", None)
                    j["metadata"]["internal"].pop("date", None)
                b = B.NetworkBackup.from_dict(j)
            m_add(flat(b))
            app.backups.add_backup(b)
            made.append(b)
            check("add")
        elif k == "readd":
            if made:
                b = made[op["i"] % len(made)]
                m_add(flat(b))
                app.backups.add_backup(b)
                check("adding again")
        elif k == "restore":
            pool = made + app.backups.backups
            if op["broken"]:
                net, node = build(cfg["first"], op["broken"])
                pool = [B.NetworkBackup(network_info=net, node_info=node)]
            if not pool:
                continue
            b = pool[op["i"] % len(pool)]
            f = flat(b)
            inc = 10000 if op["inc"] is None else op["inc"]
            fail(op)
            n = len(radio.writes)
            lfail = bool(radio.fail.get("load_network_info"))
            fails = list(op.get("fail") or ())
            kw = {} if op["inc"] is None else {"counter_increment": inc}
            refused = not complete(f) and not op["allow"]
            err = None
            try:
                await app.backups.restore_backup(b, **({"allow_incomplete": True} if op["allow"] else {}), **({} if op["new"] else {"create_new": False}), **kw)
            except Exception as e:  # noqa: BLE001
                err = e
            nofail()
            ws = radio.writes[n:]
            if refused:
                w.stats["restore_refused"] += 1
                w.check(isinstance(err, ValueError) and not ws, "incomplete-restored", lambda: f"{err!r}, written {len(ws)} times")
            elif "write" in fails:
                w.stats["restore_failed"] += 1
                w.check(err is not None and not isinstance(err, ValueError) and not ws, "error-hidden", "the radio failed to write the settings")
            else:
                w.stats["restored"] += 1
                should = lfail and op["new"]
                w.check((err is not None) == should, "restore-error", lambda: f"{err!r}")
                w.check(len(ws) == 1, "restore-writes", lambda: f"{len(ws)} writes")
                for net, node in ws:
                    want = dict(f["net"])
                    want["key"] = (want["key"][0], want["key"][1] + inc) + want["key"][2:]
                    have = netflat(net)
                    w.check(have == want and nodeflat(node) == f["node"], "restore-settings",
                            lambda: f"restoring {show(f)} by {inc} wrote {[(x, have[x], want[x]) for x in want if have[x] != want[x]]} {nodeflat(node)}")
            w.check(flat(b)["net"] == f["net"] and flat(b)["node"] == f["node"] and b.backup_time == f["time"], "frozen", "restoring changed the backup")
            check("restore")
        elif k == "mutate":
            w.stats["mutated"] += 1
            ni, nd = app.state.network_info, app.state.node_info
            h = op["how"]
            if h == 0:
                ni.network_key.tx_counter += 5
            elif h == 1:
                ni.children.append(R.eui(0x0011223344556600 + len(ni.children)))
            elif h == 2:
                ni.nwk_addresses[R.eui(0x00112233445566FF)] = t.NWK(0x4321)
            elif h == 3:
                ni.channel = t.uint8_t(24)
                ni.nwk_update_id = t.uint8_t(99)
            elif h == 4:
                ni.stack_specific["new"] = 1
                ni.metadata["new"] = 1
            elif h == 5:
                ni.key_table.append(S.Key(key=t.KeyData(b"z" * 16), partner_ieee=R.eui(3)))
                ni.tc_link_key.tx_counter += 1
            elif h == 6:
                nd.version = "9.9"
                nd.model = "other"
            elif h == 7:
                if ni.key_table:
                    ni.key_table[0].tx_counter += 100
                for v in ni.stack_specific.values():
                    if isinstance(v, dict):
                        v["changed"] = True
            else:
                ni.children.clear()
                ni.nwk_addresses.clear()
            check("changing the live network")
        elif k == "restart":
            w.stats["restarts"] += 1
            nofail()
            await app.shutdown()
            check("shutdown")
            stored("shutdown")
            n = nloads()
            await asyncio.sleep(1000 if period else 1)
            w.check(nloads() == n, "backups-after-stop", "backups went on after shutdown")
            period = None
            app = await boot()
        elif k == "jump":
            w.stats["clock_jumps"] += 1
            w.wall_skew += op["s"]
        elif k == "start":
            fail({"fail": [x for x in op.get("fail") or () if x == "load"]})
            n = nloads()
            app.backups.start_periodic_backups(op["period"])
            period = (w.now, op["period"])
            w.stats["periodic"] += 1
            await settle()
            w.check(nloads() - n == 1, "periodic", lambda: f"{nloads() - n} backups right after starting")
            check("starting periodic backups")
        elif k == "stop":
            app.backups.stop_periodic_backups()
            period = None
        elif k == "wait":
            n = nloads()
            if period is None:
                await asyncio.sleep(op["n"] * 600)
                w.check(nloads() == n, "backups-after-stop", lambda: f"{nloads() - n} backups although none are scheduled")
            else:
                t0, p = period
                done = int((w.now - t0) / p)
                await asyncio.sleep(op["n"] * p)
                want = int((w.now - t0) / p) - done
                w.check(nloads() - n == want, "periodic", lambda: f"{nloads() - n} backups in {op['n']} periods of {p} s")
            check("periods")
        elif k == "json":
            bs = made + app.backups.backups
            if not bs:
                continue
            b = bs[op["i"] % len(bs)]
            f = flat(b)
            w.stats["roundtrips"] += 1
            b2 = B.NetworkBackup.from_dict(json.loads(json.dumps(b.as_dict())))
            g = flat(b2)
            w.check(g == f, "json", lambda: f"{[(x, g['net'][x], f['net'][x]) for x in f['net'] if g['net'][x] != f['net'][x]]} {g['node']} {f['node']} {g['time']}")
            oj = b.as_open_coordinator_json()
            b3 = B.NetworkBackup.from_dict(json.loads(json.dumps(oj)))
            g = flat(b3)
            want = copy.deepcopy(f)
            kk = want["net"]["tc"]
            want["net"]["tc"] = (kk[0], kk[1], 0, 0, kk[4])
            kk = want["net"]["key"]
            want["net"]["key"] = (kk[0], kk[1], 0, kk[3], 2**64 - 1)
            if "date" in b.network_info.metadata:
                want["time"] = g["time"]
            w.check(g == want, "open-coordinator-json",
                    lambda: f"{[(x, g['net'][x], want['net'][x]) for x in want['net'] if g['net'][x] != want['net'][x]]} {g['node']} {want['node']} {g['time']}")
            w.check(json.dumps(b3.as_open_coordinator_json()["devices"]) == json.dumps(oj["devices"]), "open-coordinator-json", "devices")
            if op.get("without"):
                less, want = foreign(oj, want, op["without"])
                w.stats["foreign"] += 1
                g = flat(B.NetworkBackup.from_dict(json.loads(json.dumps(less))))
                w.check(g == want, "open-coordinator-json",
                        lambda: f"without {op['without']}: {[(x, g['net'][x], want['net'][x]) for x in want['net'] if g['net'][x] != want['net'][x]]} {g['node']} {want['node']} {g['time']}")
            w.check(b2.is_compatible_with(b) and b3.is_compatible_with(b) and b2.is_complete() == complete(f), "json", "compatible")
            check("json")
    await settle()
    check("end")
    nofail()
    await app.shutdown()
    n = nloads()
    await asyncio.sleep(90000)
    w.check(nloads() == n, "backups-after-stop", "backups went on after shutdown")
    app = await boot()
    await app.shutdown()
    w.sample = {"backups": [show(m) for m in model], "events": len(loads)}


PARTS = [Part("backups", 1, generate, run, max_steps=400_000)]
