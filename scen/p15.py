"""P15: group membership mirrors what the devices confirmed."""
import asyncio
import collections
import contextvars
import sqlite3

from scen import common, persist
from sim import wire as W
from sim.runner import Part

PROPERTY = "P15"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 200000}
BATCH = 40
REAL = ["zigpy.group", "Endpoint/Device group methods", "Groups cluster requests", "rescans on rejoin", "group tables of zigpy.appdb on SQLite", "quirks registry"]
STUBS = ["radio and devices with group tables", "clock and scheduler", "SQLite worker thread"]
RULE = ("a run = 1..3 devices with 1..3 endpoints and 8..50 operations (add, remove, per endpoint or device, rescans, rejoins, tables changed by others, "
        "full tables, refusals by status or default response, offline devices, cancelled calls, groups removed, members changed directly, devices "
        "removed and joined again, restarts, multicasts) under lossy radios; distinct = distinct sequence of requests, answers and events")
STATES = "(groups, memberships, pending requests) at each processed answer"
PROBES = ["added", "removed_m", "refused", "refused_default", "scans", "scan_changed", "unanswered", "late", "cancelled", "group_removed", "unpaired", "restarts", "adopted", "converged", "multicast"]
ASSUMPTIONS = ["an answer arriving within 50 ms of its timeout may or may not count", "no group command is in flight while a device is removed (P16 covers that)"]

CUR = contextvars.ContextVar("op", default=None)


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    devs = []
    for i in range(n):
        if rng.random() < 0.2:
            s = persist.spec(rng, i, quirk=True)
        else:
            s = {"logical": rng.choice([1, 1, 2]), "manuf": 0x1234, "eps": {}}
            for e in rng.sample([1, 2, 11, 242], rng.choice([1, 2, 3])):
                ins = [0, 6] + ([4] if rng.random() < 0.85 else [])
                s["eps"][str(e)] = {"profile": 0x0104, "dev_type": 0x0100, "version": 1, "ins": sorted(ins), "outs": rng.choice([[], [4], [0x19]]),
                                    "attrs": common.basic_attrs(f"Acme{i}", "M1") if not s["eps"] else {},
                                    "groups": rng.choice([[], [], [1], [2, 7]]), "group_cap": rng.choice([16, 16, 2, 0]), "dup_status": rng.choice([0, 0x8A])}
            s["mac_caps"] = 0x80 if s["logical"] == 2 else 0x8E
        devs.append(s)
    net = common.net(rng)
    for k in ("early_rsp", "send_err_delivered", "send_timeout"):
        net["rates"].pop(k, None)
    ops = []
    for _ in range(rng.choice([8, 16, 30, 50])):
        k = rng.choice(["add"] * 6 + ["rem"] * 5 + ["devadd", "devrem", "scan", "scan", "rejoin", "rejoin", "drift", "drift", "refuse", "offline", "cancel",
                        "pop", "pop", "popdef", "direct", "unpair", "restart", "settle", "settle", "mcast", "addgroup"])
        op = {"op": k, "d": rng.randrange(n), "e": rng.randrange(3), "g": rng.choice([1, 1, 2, 2, 3, 7, 0xFFF7]), "dt": rng.choice([0, 0, 0, 0.5, 2, 7, 30])}
        if k in ("add", "devadd", "addgroup"):
            op["name"] = rng.choice([None, "kitchen", "x" * 16, ""])
        if k == "refuse":
            op["st"] = rng.choice([0x01, 0x89, 0x80, 0x7E, 0xC3])
            op["how"] = rng.choice(["grp_add", "grp_rem", "dr", "dr"])
            op["cmd"] = rng.choice([0, 2, 3])
        if k == "drift":
            op["clear"] = rng.random() < 0.3
        if k == "direct":
            op["add"] = rng.random() < 0.5
        if k == "offline":
            op["for"] = rng.choice([3, 20, 60])
        if k == "pop":
            op["obj"] = rng.random() < 0.4
        ops.append(op)
    return {"cfg": {"devs": devs, "net": net, "db_delay": rng.choice([0, 0, 0.01])}, "ops": ops}


async def run(w, plan):
    from sim import radio as R, storage
    import zigpy.config as conf
    from zigpy.zcl import foundation
    t = R.t

    cfg = plan["cfg"]
    persist.register_quirks()
    radio = R.SimRadio(w, cfg["net"])
    storage.attach(w, delay=cfg["db_delay"])
    dbconf = R.base_config(**{conf.CONF_DATABASE: f"{w.scratch}/z.db"})
    sims = [radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), s, f"d{i}")) for i, s in enumerate(cfg["devs"])]
    for d in sims:
        d.eui = R.eui(d.ieee)
        d.refuse = {}

        def hook(tx, f, e, d=d):
            if int(tx.cluster) == 4 and f.cluster_specific and d.refuse.get(f.cmd):
                st = d.refuse[f.cmd].pop(0)
                d.zcl_reply(tx, f, W.DEFAULT_RSP, bytes([f.cmd, st]))
                return True
            return False

        d.zcl_hook = hook
    members = {}  # gid -> set of (device index, ep): the model
    names = {}
    want_ev, got_ev = collections.Counter(), collections.Counter()
    pend = []  # requests on the air
    st = {"app": None, "gone": set()}
    dev_by_eui = {d.eui: i for i, d in enumerate(sims)}

    class L:
        def group_added(self, g):
            got_ev["group_added", int(g.group_id)] += 1

        def group_removed(self, g):
            got_ev["group_removed", None if g is None else int(g.group_id)] += 1

        def group_member_added(self, g, ep):
            got_ev["member_added", int(g.group_id), dev_by_eui.get(ep.device.ieee), ep.endpoint_id] += 1
            w.log("member_added", int(g.group_id), ep.endpoint_id)

        def group_member_removed(self, g, ep):
            got_ev["member_removed", int(g.group_id), dev_by_eui.get(ep.device.ieee), ep.endpoint_id] += 1
            w.log("member_removed", int(g.group_id), ep.endpoint_id)

    # ---- the model's transitions
    def m_group(g, name=None):
        if g not in members:
            members[g] = set()
            names[g] = name
            want_ev["group_added", g] += 1

    def m_add(g, d, e):
        if (d, e) not in members[g]:
            members[g].add((d, e))
            want_ev["member_added", g, d, e] += 1

    def m_del(g, d, e):
        if g in members and (d, e) in members[g]:
            members[g].discard((d, e))
            want_ev["member_removed", g, d, e] += 1

    def m_set(d, e, gs):
        for g in list(members):
            if g not in gs:
                m_del(g, d, e)
        for g in gs:
            m_group(g)
            m_add(g, d, e)

    def answered(p, rx):
        """The meaning of an answer: (status, groups of the endpoint or None)"""
        f = W.Zcl.parse(rx.data)
        b = W.Buf(f.payload)
        if not f.cluster_specific:
            if f.cmd != W.DEFAULT_RSP:
                return None
            b.u8()
            return b.u8(), None
        if p["cmd"] == 2:
            b.u8()
            return 0, [b.u16() for _ in range(b.u8())]
        return b.u8(), None

    def on_tx(tx):
        if int(tx.cluster) != 4 or not tx.dst_ep or tx.dst_mode != t.AddrMode.NWK:
            return
        f = W.Zcl.parse(tx.data)
        d = next((i for i, s in enumerate(sims) if s.nwk == int(tx.dst)), None)
        if d is None or not f.cluster_specific:
            return
        tx.tag = CUR.get()
        b = W.Buf(f.payload)
        pend.append({"d": d, "e": int(tx.dst_ep), "cmd": f.cmd, "g": b.u16() if f.cmd != 2 else None, "tx": tx, "op": tx.tag, "name": tx.tag["name"] if tx.tag else None,
                     "app": st["app"]})
        if f.cmd == 2:
            w.stats["scans"] += 1

    def on_rx(rx):
        if rx.cluster == W.DEVICE_ANNCE and rx.dev in sims:
            cancel_scans(sims.index(rx.dev))
            return
        p = next((p for p in pend if p["tx"] is rx.req), None)
        if p is None or rx.req is None:
            return
        a = answered(p, rx)
        if a is None:
            return
        tx = p["tx"]
        if tx.outcome in ("failed", "cancelled", "no-route"):
            pend.remove(p)
            return
        if tx.t1 is not None:
            left = tx.t1 + (28 if tx.extended else 5) - w.now
            if abs(left) < 0.05:
                st["adopt"] = True
                if p["op"] is not None:
                    p["op"]["adopt"] = True
            elif left < 0:
                w.stats["late"] += 1
                pend.remove(p)
                return
        pend.remove(p)
        status, gs = a
        if p["op"] is not None:
            p["op"]["answers"].append((p["e"], p["cmd"], status))
        w.state(len(members), sum(map(len, members.values())), len(pend), p["cmd"], status)
        if gs is None and not W.Zcl.parse(rx.data).cluster_specific:
            w.stats["refused"] += 1
        elif p["cmd"] == 2:
            if gs is not None:
                if {g for g in members if (p["d"], p["e"]) in members[g]} != set(gs):
                    w.stats["scan_changed"] += 1
                m_set(p["d"], p["e"], gs)
        elif p["cmd"] == 0:
            if status in (0, 0x8A):
                w.stats["added"] += 1
                m_group(p["g"], p["name"])
                m_add(p["g"], p["d"], p["e"])
            else:
                w.stats["refused"] += 1
        elif p["cmd"] == 3:
            if status in (0, 0x8B):
                w.stats["removed_m"] += 1
                m_del(p["g"], p["d"], p["e"])
            else:
                w.stats["refused"] += 1

    def cancel_scans(d):
        for p in pend[:]:
            if p["d"] == d and p["cmd"] == 2:
                pend.remove(p)

    radio.on_tx.append(on_tx)
    radio.on_rx.append(on_rx)

    # ---- invariants
    def actual():
        return {int(g): {(dev_by_eui.get(i), e) for i, e in grp.members} for g, grp in st["app"].groups.items()}

    def quiet():
        app = st["app"]
        if app is None:
            return
        have = actual()
        if st.get("adopt"):
            st["adopt"] = False
            w.stats["adopted"] += 1
            members.clear()
            members.update({g: set(s) for g, s in have.items()})
            names.clear()
            names.update({int(g): grp._name for g, grp in app.groups.items()})
            want_ev.clear()
            got_ev.clear()
        if have != members:
            gone = [(g, m) for g in members for m in members[g] - have.get(g, set())]
            extra = [(g, m) for g in have for m in have[g] - members.get(g, set())]
            w.violate("membership", f"(group, (device, endpoint)) missing {gone}, unexpected {extra}; groups {sorted(have)} expected {sorted(members)}")
            members.clear()
            members.update({g: set(s) for g, s in have.items()})
            want_ev.clear()
            got_ev.clear()
        if want_ev != got_ev:
            w.violate("events", f"announced {dict(got_ev - want_ev)} instead of {dict(want_ev - got_ev)}")
        want_ev.clear()
        got_ev.clear()
        for g, grp in app.groups.items():
            w.check(int(grp.group_id) == int(g), "group-id", str(g))
            for (i, e), ep in grp.members.items():
                live = app.devices.get(i)
                w.check(live is not None and live.endpoints.get(e) is ep and ep.device is live, "stale-member",
                        lambda: f"group {g} holds an endpoint {i} {e} that is not the device's")
                w.check(ep.unique_id == (i, e), "member-key", lambda: f"{i} {e}")
        for dev in app.devices.values():
            for ep in dev.non_zdo_endpoints:
                a = {int(g) for g in ep.member_of}
                b = {int(g) for g, grp in app.groups.items() if ep.unique_id in grp.members}
                w.check(a == b, "both-ways", lambda: f"endpoint {ep.endpoint_id} of {dev.ieee} says it is in {a}, the groups say {b}")

    def stored(what):
        con = sqlite3.connect(f"{w.scratch}/z.db")
        try:
            v = con.execute("PRAGMA user_version").fetchone()[0]
            gs = {r[0] for r in con.execute(f"SELECT group_id FROM groups_v{v}")}
            ms = [(r[0], R.t.EUI64.convert(r[1]), r[2]) for r in con.execute(f"SELECT group_id, ieee, endpoint_id FROM group_members_v{v}")]
        finally:
            con.close()
        w.check(gs == set(members), "stored-groups", lambda: f"{what}: stored {sorted(gs)}, expected {sorted(members)}")
        have = {(g, dev_by_eui.get(i), e) for g, i, e in ms}
        want = {(g, d, e) for g in members for d, e in members[g]}
        w.check(have == want and len(ms) == len(have), "stored-members", lambda: f"{what}: stored {sorted(have - want)} too much, {sorted(want - have)} missing")

    async def boot():
        app = R.SimApp(dbconf)
        app.sim_radio = radio
        await app._load_db()
        app.groups.add_listener(L())
        got_ev.clear()
        want_ev.clear()
        st["app"] = app
        await app.startup()
        for g, grp in app.groups.items():
            w.check(grp.name == (names[int(g)] if names.get(int(g)) is not None else f"No name group {grp.group_id}"), "name",
                    lambda: f"group {g} is called {grp.name!r}, was {names.get(int(g))!r}")
        return app

    app = await boot()
    w.on_quiet = quiet
    radio.faults_on = False
    tasks = {}

    async def join(d):
        st["app"].handle_join(t.NWK(d.nwk), d.eui, t.NWK(0))
        await asyncio.sleep(40)
        dev = st["app"].devices.get(d.eui)
        if dev is None or not dev.is_initialized:
            w.violate("not-joined", "a device that joined over a perfect radio is not interviewed")

    for d in sims:
        await join(d)
    radio.faults_on = True

    async def settle():
        await asyncio.sleep(3.1037)
        for _ in range(400):
            if not tasks and persist.group_scans_done(st["app"]):
                break
            await asyncio.sleep(1.0037)
        await asyncio.sleep(1.0037)

    def judge(op, what, err, res):
        ans = op["answers"]
        if err is not None:
            # the last request was not answered
            w.stats["unanswered"] += 1
            w.check(op["kind"].startswith("dev") or not ans or op.get("adopt"), "error-though-answered", lambda: f"{what} raised {err!r} although {ans} was answered")
        elif op["kind"] in ("add", "rem") and op["has"]:
            w.check(bool(ans), "answer-invented", lambda: f"{what} returned {res!r} although nothing was answered")
            if ans:
                w.check(int(res) == ans[-1][2], "status", lambda: f"{what} returned {res!r}, the device answered {ans[-1][2]:#x}")
        elif op["kind"] in ("add", "rem"):
            w.check(res == foundation.Status.FAILURE and not ans, "status", lambda: f"{what} without a groups cluster returned {res!r}")

    n_op = 0
    for op in plan["ops"]:
        n_op += 1
        await asyncio.sleep(op["dt"] + 0.0001 * n_op)
        app = st["app"]
        d = sims[op["d"]]
        dev = app.devices.get(d.eui)
        eps = sorted(d.eps)
        e = eps[op["e"] % len(eps)]
        g = op["g"]
        k = op["op"]
        w.log("op", k, d.name, e, g)
        if dev is None and k not in ("settle", "restart", "pop", "popdef", "mcast", "addgroup", "unpair"):
            continue
        if k in ("add", "rem", "devadd", "devrem"):
            # a call on all endpoints only runs alone
            if any(o["d"] == op["d"] and (k.startswith("dev") or o["kind"].startswith("dev")) for o in tasks.values()):
                continue
            info = {"kind": k, "d": op["d"], "answers": [], "name": op.get("name"), "has": 4 in d.eps[e]["ins"]}

            async def call(k=k, info=info, dev=dev, e=e, g=g, name=op.get("name")):
                CUR.set(info)
                err = res = None
                try:
                    if k == "add":
                        res = await dev.endpoints[e].add_to_group(g, name)
                    elif k == "rem":
                        res = await dev.endpoints[e].remove_from_group(g)
                    elif k == "devadd":
                        await dev.add_to_group(g, name)
                    else:
                        await dev.remove_from_group(g)
                except asyncio.CancelledError:
                    info["cancelled"] = True
                    raise
                except Exception as ex:  # noqa: BLE001
                    err = ex
                judge(info, f"{k} of endpoint {e} and group {g}", err, res)

            task = asyncio.create_task(call())
            tasks[task] = info
            task.add_done_callback(lambda tk: tasks.pop(tk, None))
        elif k == "cancel":
            if tasks:
                task = list(tasks)[op["e"] % len(tasks)]
                w.stats["cancelled"] += 1
                info = tasks[task]
                task.cancel()
                for p in pend[:]:
                    if p["op"] is info:
                        pend.remove(p)
        elif k == "scan":
            cancel_scans(op["d"])
            dev.schedule_group_membership_scan()
        elif k == "rejoin":
            d.announce(lossy=False)
        elif k == "drift":
            gs = d.eps[e]["groups"]
            if op["clear"]:
                gs.clear()
            elif g in gs:
                gs.remove(g)
            else:
                gs.append(g)
        elif k == "refuse":
            if op["how"] == "dr":
                d.refuse.setdefault(op["cmd"], []).append(op["st"])
                w.stats["refused_default"] += 1
            else:
                d.status_script.setdefault(op["how"], []).append(op["st"])
        elif k == "offline":
            d.online = False
            w.loop.call_later(op["for"] + 0.0177, setattr, d, "online", True)
            w.stats["fault_offline"] += 1
        elif k == "pop":
            grp = app.groups.get(g)
            if grp is None:
                try:
                    app.groups.pop(g)
                    w.violate("pop", f"removing the unknown group {g} raised nothing")
                except KeyError:
                    pass
            else:
                w.stats["group_removed"] += 1
                eps_ = list(grp.members.values())
                for m in sorted(members.get(g, ())):
                    m_del(g, *m)
                members.pop(g, None)
                names.pop(g, None)
                want_ev["group_removed", g] += 1
                r = app.groups.pop(grp if op["obj"] else g)
                w.check(r is grp and not grp.members and all(g not in x.member_of for x in eps_), "pop", f"{r!r}")
        elif k == "popdef":
            if g not in app.groups:
                w.check(app.groups.pop(g, None) is None, "pop", "removing an unknown group with a default")
        elif k == "addgroup":
            m_group(g, op["name"])
            grp = app.groups.add_group(g, op["name"])
            w.check(grp is app.groups[g], "add-group", str(grp))
        elif k == "direct":
            if g in app.groups and e in dev.endpoints:
                if op["add"]:
                    m_add(g, op["d"], e)
                    app.groups[g].add_member(dev.endpoints[e])
                else:
                    m_del(g, op["d"], e)
                    app.groups[g].remove_member(dev.endpoints[e])
        elif k == "mcast":
            if g in app.groups:
                w.stats["multicast"] += 1
                nb = len(radio.broadcasts)
                try:
                    await app.groups[g].endpoint.on_off.toggle()
                    ok = True
                except Exception:  # noqa: BLE001
                    ok = False
                bs = radio.broadcasts[nb:]
                w.check(len(bs) == 1 and bs[0].dst_mode == t.AddrMode.Group and int(bs[0].dst) == g and int(bs[0].cluster) == 6 and (bs[0].outcome == "sent") == ok,
                        "multicast", lambda: f"{[(x.dst_mode, x.dst) for x in bs]} {ok}")
        elif k == "unpair":
            await settle()
            await asyncio.sleep(90)
            radio.faults_on = False
            if dev is not None:
                for g2 in list(members):
                    for m in sorted(members[g2]):
                        if m[0] == op["d"]:
                            m_del(g2, *m)
                await app.remove(d.eui)
                w.stats["unpaired"] += 1
                await asyncio.sleep(45)
                if d.eui in app.devices:
                    w.violate("not-removed", "a device is still there 45 s after its removal")
            for x in d.eps.values():
                x["groups"].clear()
            d.refuse.clear()
            d.status_script.clear()
            d.on_network = d.online = True
            d.left = []
            radio.faults_on = False
            await join(d)
            radio.faults_on = True
        elif k == "settle":
            await settle()
            stored("settled")
        elif k == "restart":
            for task in list(tasks):
                task.cancel()
            pend.clear()
            await asyncio.sleep(0.0131)
            quiet()
            st["app"] = None
            await app.shutdown()
            persist.stop_group_scans(app)
            # answers to requests of the old application would meet equal sequence numbers
            await asyncio.sleep(100.0131)
            stored("shutdown")
            w.stats["restarts"] += 1
            pend.clear()
            app = await boot()
    # convergence
    await settle()
    await asyncio.sleep(90)
    radio.faults_on = False
    for d in sims:
        d.online = True
        d.refuse.clear()
        d.status_script.clear()
        if d.eui in st["app"].devices:
            d.announce(lossy=False)
    await asyncio.sleep(60)
    await settle()
    w.on_quiet = None
    quiet()
    have = actual()
    for i, d in enumerate(sims):
        if d.eui not in st["app"].devices:
            continue
        for e, x in d.eps.items():
            if 4 in x["ins"]:
                mine = {g for g in have if (i, e) in have[g]}
                w.check(mine == set(x["groups"]), "not-converged", lambda: f"endpoint {e} of {d.name} is in {sorted(mine)}, its table says {sorted(x['groups'])}")
                w.stats["converged"] += 1
    stored("end")
    st["app"], app = None, st["app"]
    await app.shutdown()
    stored("end")
    w.sample = {"groups": {g: sorted(m) for g, m in members.items()}, "ops": len(plan["ops"])}


PARTS = [Part("groups", 1, generate, run, max_steps=600_000)]
