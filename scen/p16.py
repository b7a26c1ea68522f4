"""P16: removing devices, and devices that join again."""
import asyncio

from scen import common, persist
from sim import wire as W
from sim.core import HarnessError
from sim.runner import Part

PROPERTY = "P16"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 80000}
BATCH = 25
REAL = ["ControllerApplication.remove/handle_join/handle_leave/packet_received", "Device interviews, requests and group scans", "ZDO", "Groups", "Topology", "PersistingListener over real SQLite files"]
STUBS = ["radio and devices", "clock and scheduler", "SQLite thread"]
RULE = ("a run = 2..4 devices and 6..40 operations: removals (also of devices that are interviewed, asleep, being removed, asked to rejoin), rejoins at any moment with the same or another address and with "
        "other descriptors, announcements, traffic, leave notifications, group changes, topology scans and restarts, under message faults and database latency; distinct = distinct event sequence")
STATES = "per device (in/removing/out, on the network, initialized) when time advances"
PROBES = ["removed", "removed_idle", "removed_interviewing", "removed_offline", "removed_twice", "rejoin_during_removal", "rejoin_after", "rediscovered", "ignored_while_removed", "leave_notified", "left_on_request", "disobeyed",
          "parents_asked", "rejoin_flag", "reborn", "restarts", "restart_during_removal", "moved", "reinterviewed", "stayed"]
ASSUMPTIONS = ["answers to requests made before a device was forgotten do not arrive after it joined again (its sequence numbers start over)", "no two devices use the same network address at the same time", "a device that still talks after its removal is found and joins again, as any unknown device does"]

OPS = ["remove"] * 5 + ["rejoin"] * 5 + ["announce"] * 2 + ["talk"] * 4 + ["leave"] * 2 + ["report"] * 2 + ["grp_add"] * 4 + ["grp_rem", "grp_scan", "topo", "topo", "read", "read", "relays", "sleep", "wake", "wake", "restart", "wait"]


def generate(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    devs = []
    for i in range(n):
        s = persist.spec(rng, i)
        s.pop("inactive", None)
        devs.append({**s, "obey": rng.random() < 0.7, "leave_delay": rng.choice([0, 0, 0.5, 3]), "alt": persist.spec(rng, i), "leave_answer": rng.choice(["ok", "ok", "ok", "none", "refuse"]),
                     "notify": rng.choice(["none", "none", "leave"])})
        devs[-1]["alt"].pop("inactive", None)
    span = rng.choice([15, 45, 120])
    use = [k for k in sorted(set(OPS)) if k == "remove" or rng.random() < 0.75]
    focus = rng.random() < 0.4  # around one device
    ops = [{"op": "join", "d": i, "at": rng.choice([0, 0, 0.5])} for i in range(n)]
    for _ in range(rng.choice([6, 12, 24, 40])):
        k = rng.choices(use, [OPS.count(x) for x in use])[0]
        op = {"op": k, "d": 0 if focus and rng.random() < 0.7 else rng.randrange(n), "at": round(rng.choice([rng.uniform(0, 6), rng.uniform(8, 20), rng.uniform(0, span), rng.choice([10, 11, 12, 12, 12.5])]), 2)}
        if k == "remove":
            op.update(kids=rng.random() < 0.5, rejoin=rng.random() < 0.15, dflt=rng.random() < 0.5)
        elif k == "rejoin":
            op.update(how=rng.choice(["annce", "annce", "radio", "talk"]), move=rng.random() < 0.3, alt=rng.random() < 0.35)
        elif k == "talk":
            op.update(a=0xF000 + rng.randint(0, 2))
        elif k in ("report", "read"):
            op.update(persist.attr_op(rng), e=rng.randint(0, 2), ci=rng.randint(0, 5), out=False, n=1)
            op["a"] = 0xF100 + op["a"] % 16
            if op["ty"] == 0xF0:
                op.update(ty=0x21, raw="0500")
        elif k == "relays":
            op["r"] = rng.choice([[], [0x2222], None])
        elif k == "topo":
            op["nb"] = [[rng.randint(0, 4), rng.choice([0, 1, 1, 2]), rng.randint(0, 255)] for _ in range(rng.choice([0, 1, 3, 5]))]
            op["rt"] = [[rng.randint(0, 4), rng.choice([0, 1]), rng.randint(0, 4)] for _ in range(rng.choice([0, 1, 4]))]
            op["direct"] = rng.random() < 0.4
        elif k in ("grp_add", "grp_rem"):
            op.update(g=rng.randint(1, 3), e=rng.randint(0, 2), net=rng.random() < 0.75)
        elif k == "leave":
            op["gone"] = rng.random() < 0.5
        elif k == "restart":
            op["down"] = rng.choice([0.1, 5, 40])
        ops.append(op)
    if n > 2 and rng.random() < 0.3:
        # an end device that several routers list as their neighbour
        for s in (devs[0], devs[0]["alt"]):
            s.update(logical=2, mac_caps=0x80)
        for s in devs[1:]:
            for x in (s, s["alt"]):
                x.update(logical=1, mac_caps=0x8E)
        t = rng.choice([10, 12, span])
        for i in range(1, n):
            ops.append({"op": "topo", "d": i, "at": t + i, "direct": True, "rt": [], "nb": [[0, 1, 9]] if rng.random() < 0.8 else [[1 + i % (n - 1), 1, 9]]})
        ops.append({"op": "remove", "d": 0, "at": t + rng.choice([n, 12, 20]), "kids": rng.random() < 0.5, "rejoin": rng.random() < 0.3, "dflt": rng.random() < 0.5})
        if rng.random() < 0.5:
            ops = [o for o in ops if o["op"] in ("join", "topo", "wait") or (o["op"] == "remove" and o["d"] == 0 and o["at"] >= t)]
    if sum(o["op"] == "restart" for o in ops) > 2:
        ops = [o for o in ops if o["op"] != "restart"]
    return {"cfg": {**common.net(rng, rng.choice(["none", "light", "light", "medium"])), "devs": devs, "span": span, "db_delay": rng.choice([0, 0, 0.002, 0.05])}, "ops": ops}


class Model:
    """What the application may know of one device."""

    def __init__(self):
        self.state = "out"
        self.t = 0.0  # of the last change
        self.gen = 0
        self.limit = 0.0  # when a removal must be over
        self.opts = None
        self.parents = {}
        self.values = {}  # (ep, cluster, attr) -> values delivered in this generation
        self.spoiled = False


async def run(w, plan):
    cfg = plan["cfg"]
    env = persist.Env(w, cfg, db_delay=cfg["db_delay"])
    R, radio, t = env.R, env.radio, env.R.t
    models = {}
    joins = {}  # joined events not yet accounted for
    for d, s in zip(env.devs, cfg["devs"]):
        d.cfg = s
        d.m = models[d.eui] = Model()
        d.specs = [s, s["alt"]]
        d.which = 0
        d.nwks = {d.nwk}

    def eui(raw):
        return R.eui(raw)

    by = {d.eui: d for d in env.devs}

    # ------------------------------------------------ the devices
    def zdo_hook(d):
        def hook(tx, tsn, c, b, bcast):
            if c != W.MGMT_LEAVE_REQ:
                return False
            who, opts = b.u64(), b.u8()
            d.left.append((w.now, who, opts))
            ans = d.cfg["leave_answer"]
            if ans != "none":
                d.rsp(tx, W.u8(tsn) + W.u8(0 if ans == "ok" else W.ZDO_NOT_SUPPORTED))
            target = d if who == d.ieee else next((x for x in env.devs if x.ieee == who), None)
            if target is not None and target.cfg["obey"] and ans != "refuse":
                w.loop.call_later(target.cfg["leave_delay"], depart, target, bool(opts & 0x80))
            elif target is not None:
                w.stats["disobeyed"] += 1
            return True
        return hook

    def depart(d, rejoin):
        if not d.on_network or not d.reachable():
            return
        w.stats["left_on_request"] += 1
        w.log("departs", d.name)
        d.on_network = False
        if d.cfg["notify"] == "leave":
            leave_ind(d)
        if rejoin:
            w.loop.call_later(2.0, come_back, d, "annce")

    def leave_ind(d):
        if env.app is not None and radio.connected:
            w.stats["leave_notified"] += 1
            n = len(lefts)
            was = d.eui in env.app.devices
            env.app.handle_leave(t.NWK(d.nwk), d.eui)
            w.check((len(lefts) - n == 1) == was, "leave-event", lambda: f"the leave notification of {d.name} ({'known' if was else 'unknown'}) raised {len(lefts) - n} events")
            w.check((d.eui in env.app.devices) == was, "leave-deleted", lambda: f"the leave notification of {d.name} removed it")

    def come_back(d, how, move=False, alt=False):
        if d.on_network:
            return
        d.on_network = True
        if move:
            d.moves += 1
            w.stats["moved"] += 1
            d.nwk = common.nwk_of(env.devs.index(d)) + d.moves
            d.nwks.add(d.nwk)
        if alt:
            # new firmware; the application must have forgotten the old one
            settle(d)
            if d.m.state == "out" or (d.m.state == "removing" and how in ("annce", "radio")):
                d.which ^= 1
                fresh = R.SimDevice(w, d.ieee, d.nwk, d.specs[d.which], d.name)
                d.eps, d.logical, d.node_desc_bytes = fresh.eps, fresh.logical, fresh.node_desc_bytes
                w.stats["reborn"] += 1
        for e in d.eps.values():
            e["groups"].clear()
        if how == "annce":
            d.announce()
        elif how == "radio":
            if radio.connected:
                effect(d.eui, d.nwk, True)
                env.app.handle_join(t.NWK(d.nwk), d.eui, t.NWK(0))
        else:
            talk(d, 0xF000)

    def talk(d, a):
        ep = sorted(d.eps)[0]
        d.k = getattr(d, "k", 0) + 1
        d.report(ep, sorted(d.eps[ep]["ins"])[0], [(a, 0x23, W.u32(d.k))])

    for d in env.devs:
        d.zdo_hook = zdo_hook(d)

    # ------------------------------------------------ the model
    def settle(d):
        """Adopts the end of a removal."""
        m = d.m
        if m.state == "removing" and env.app is not None and d.eui not in env.app.devices:
            m.state, m.t = "out", w.now
        return m

    def born(d):
        m = d.m
        m.gen += 1
        d.life += 1  # late answers to the forgotten device would meet equal sequence numbers
        m.state, m.t, m.values = "in", w.now, {}
        joins[d.eui] = joins.get(d.eui, 0) + 1

    def effect(ieee, nwk, rejoin):
        """A join notification is about to be processed."""
        d = by.get(ieee)
        if d is None or env.app is None or down[0]:
            return
        m = settle(d)
        if m.state == "removing":
            if rejoin:
                w.stats["rejoin_during_removal"] += 1
                born(d)
            else:
                w.stats["ignored_while_removed"] += 1
        elif m.state == "out":
            w.stats["rejoin_after" if rejoin else "rediscovered"] += 1
            born(d)
        elif ieee in env.app.devices and int(env.app.devices[ieee].nwk) != nwk:
            joins[ieee] = joins.get(ieee, 0) + 1

    def on_rx(rx):
        data = bytes(rx.data)
        if 0 in (rx.src_ep, rx.dst_ep):
            if rx.cluster == W.DEVICE_ANNCE and len(data) >= 12:
                effect(eui(int.from_bytes(data[3:11], "little")), int.from_bytes(data[1:3], "little"), True)
            elif rx.cluster in (W.NWK_ADDR_REQ | W.RSP, W.IEEE_ADDR_REQ | W.RSP) and len(data) >= 12 and data[1] == 0:
                effect(eui(int.from_bytes(data[2:10], "little")), int.from_bytes(data[10:12], "little"), False)
        elif rx.dev is not None and rx.dev.eui in by if hasattr(rx.dev, "eui") else False:
            try:
                f = W.Zcl.parse(data)
                if f.cmd == W.REPORT and not f.cluster_specific:
                    b = W.Buf(f.payload)
                    while b.left:
                        a, ty = b.u16(), b.u8()
                        raw = W.take_value(b, ty)
                        rx.dev.m.values.setdefault((rx.src_ep, rx.cluster, a), set()).add(bytes(raw))
                elif f.cmd == W.READ_RSP and not f.cluster_specific:
                    b = W.Buf(f.payload)
                    while b.left:
                        a, st = b.u16(), b.u8()
                        if st == 0:
                            raw = W.take_value(b, b.u8())
                            rx.dev.m.values.setdefault((rx.src_ep, rx.cluster, a), set()).add(bytes(raw))
            except ValueError:
                pass

    radio.on_rx.append(on_rx)

    lefts, removed = [], []

    class L:
        def device_joined(self, dev):
            if env.app is not app_of[0] or dev.ieee not in by:
                return
            joins[dev.ieee] = joins.get(dev.ieee, 0) - 1
            w.check(joins[dev.ieee] >= 0, "joined-event", lambda: f"{by[dev.ieee].name} was announced as joined without having joined")

        def device_left(self, dev):
            lefts.append(dev.ieee)

        def device_removed(self, dev):
            removed.append(dev.ieee)

        def device_initialized(self, dev):
            d = by.get(dev.ieee)
            if d is not None and env.app is app_of[0]:
                settle(d)
                w.check(d.m.state == "in", "initialized-event", lambda: f"{d.name} was announced as initialized {w.now - d.m.t:.1f} s after it was {'removed' if d.m.state == 'out' else 'asked to leave'}")

    app_of = [None]

    # leave requests
    def on_tx(tx):
        if int(tx.cluster) != W.MGMT_LEAVE_REQ:
            return
        data = bytes(tx.data)
        who, opts = eui(int.from_bytes(data[1:9], "little")), data[9]
        d = by.get(who)
        dst = next((x for x in env.devs if int(tx.dst) in x.nwks), None)
        if d is None or d.m.opts is None:
            w.violate("leave-request", f"{d.name if d else who} is asked to leave without having been removed")
            return
        m = d.m
        ok = any(w.now - t0 < 400 and (dst is d and opts == own or (dst in parents or int(tx.dst) in parents.values()) and opts == par)
                 for t0, own, par, parents in m.opts)
        w.check(ok, "leave-request", lambda: f"{d.name} is asked to leave by a request to {int(tx.dst):#06x} ({dst.name if dst else '?'}) with options {opts:#04x}, expected one of {m.opts}")
        if dst is not d:
            w.stats["parents_asked"] += 1

    radio.on_tx.append(on_tx)

    # ------------------------------------------------ invariants
    def quiet():
        app = env.app
        if app is None or down[0]:
            return
        for d in env.devs:
            m = settle(d)
            w.state(d.name, m.state, d.on_network, d.eui in app.devices and app.devices[d.eui].is_initialized)
            here = app.devices.get(d.eui)
            if m.state == "in":
                w.check(here is not None, "vanished", lambda: f"{d.name} joined {w.now - m.t:.1f} s ago and is unknown")
            elif m.state == "removing":
                w.check(w.now <= m.limit + 0.5, "not-removed", lambda: f"{d.name} is still known {w.now - m.t:.1f} s after it was removed")
            else:
                w.check(here is None, "reappeared", lambda: f"{d.name} is known again {w.now - m.t:.1f} s after it was removed though it did not join")
                w.check(not app.topology.neighbors.get(d.eui) and not app.topology.routes.get(d.eui), "topology-kept", lambda: f"the topology tables of the removed {d.name} are kept")
            if here is not None and m.state == "in":
                for eid, ep in here.endpoints.items():
                    for gid in getattr(ep, "member_of", {}):
                        w.check(gid in app.groups and app.groups[gid].get((d.eui, eid)) is ep, "group", lambda: f"{d.name} says it is in group {gid}, the group disagrees")
                for (eid, ep) in ((eid, ep) for eid, ep in here.endpoints.items() if eid):
                    for c in (*ep.in_clusters.values(), *ep.out_clusters.values()):
                        for a, v in c._attr_cache.items():
                            if a >= 0xF000:
                                got = m.values.get((eid, int(c.cluster_id), a), ())
                                w.check(bool(got), "old-value", lambda: f"{d.name} has the value {v!r} of attribute {a:#06x} of cluster {int(c.cluster_id):#06x} though it has not reported it since it joined")
        for gid, g in app.groups.items():
            for (ieee, eid), ep in g.items():
                d = by.get(ieee)
                if d is None or d.m.state == "removing":
                    continue
                w.check(d.m.state == "in", "group", lambda: f"the removed {d.name} is in group {int(gid)}")
                dev = app.devices.get(ieee)
                w.check(dev is not None and dev.endpoints.get(eid) is ep, "group", lambda: f"group {int(gid)} contains a stale endpoint of {d.name}")

    # ------------------------------------------------ operations
    down = [False]

    async def boot(start=True):
        app = await env.boot(start=False)
        app_of[0] = app
        app.add_listener(L())
        joins.clear()
        down[0] = False
        for d in env.devs:
            m = d.m
            if d.eui in app.devices:
                m.state = "in"
            else:
                m.state, m.t = "out", w.now
        if start:
            await app.startup()

    async def stop():
        """Shuts the application down and checks the stored network."""
        down[0] = True
        app = env.app
        for d in env.devs:
            settle(d)
        w.stats["restart_during_removal"] += any(d.m.state == "removing" for d in env.devs)
        expect = {}
        for dev in list(app.devices.values()):
            dev.cancel_initialization()
        persist.stop_group_scans(app)

        def stored_of(a, ieee):
            dev = a.devices.get(ieee)
            if dev is None:
                return {}
            out = {("value", eid, int(c.cluster_id), x): persist.norm(v) for eid, ep in dev.endpoints.items() if eid for c in ep.in_clusters.values() for x, v in c._attr_cache.items() if x >= 0xF000}
            out.update({("group", int(g), eid): True for g, gr in a.groups.items() for (i, eid) in gr if i == ieee})
            return out

        before = {d.eui: stored_of(app, d.eui) for d in env.devs}
        await app.shutdown()
        for d in env.devs:
            m = settle(d)
            if m.state == "in" and d.eui in env.known:
                # answers that arrive as the application stops may be lost
                expect[d.eui] = (before[d.eui], stored_of(app, d.eui))
        w.stats["restarts"] += 1
        tables = env.storage.dump(env.path)
        ids = {str(i) for i in expect} | {str(R.eui(R.COORD_IEEE))}
        known = {str(d.eui): d for d in env.devs}
        for name, rows in tables.items():
            if name == "user_version" or "backup" in name or not name.endswith("_v13"):
                continue
            for row in rows:
                owner = row[1] if name.startswith("group_members") else row[0]
                if owner in known and owner not in ids:
                    d = known[owner]
                    if d.m.state == "in" and name.startswith(("routes",)):
                        continue  # scanned before its interview ended
                    w.violate("stored", f"table {name} holds {row} of {d.name}, which is {'not interviewed yet' if d.m.state == 'in' else 'removed'}")
                    break
        env.app = None
        view = await env.load_copy(env.path)
        try:
            for d in env.devs:
                dev = view.devices.get(d.eui)
                if d.eui in expect:
                    w.check(dev is not None, "lost", lambda: f"{d.name} is lost by a restart")
                    if dev is None:
                        continue
                    got = stored_of(view, d.eui)
                    old, new = expect[d.eui]
                    for key in {*got, *old, *new}:
                        w.check(got.get(key) in (old.get(key), new.get(key)), "values" if key[0] == "value" else "groups",
                                lambda: f"{d.name} has {got.get(key)!r} as {key} after a restart instead of {new.get(key)!r}")
                    whole(d, dev, "after a restart", model=False)
                else:
                    w.check(dev is None, "resurrected", lambda: f"{d.name} is back after a restart")
        finally:
            await persist.close_copy(view)

    def whole(d, dev, when, model=True):
        have = {eid: (int(ep.profile_id), int(ep.device_type), sorted(int(c) for c in ep.in_clusters), sorted(int(c) for c in ep.out_clusters)) for eid, ep in dev.endpoints.items() if eid}
        want = {eid: (e["profile"], e["dev_type"], sorted(e["ins"]), sorted(e["outs"])) for eid, e in d.eps.items()}
        w.check(have == want, "not-whole", lambda: f"{when} {d.name} has the endpoints {have} instead of {want}")
        w.check(dev.node_desc is not None and dev.node_desc.serialize() == d.node_desc_bytes, "not-whole", lambda: f"{when} {d.name} has the node descriptor {dev.node_desc}")
        if model:
            e = next((e for e in d.eps.values() if (0, 5) in e["attrs"]), None)
            want = W.decode(*e["attrs"][(0, 5)]) if e is not None else None
            w.check(dev.model == want, "not-whole", lambda: f"{when} {d.name} has the model {dev.model!r} instead of {want!r}")

    def idle(dev):
        """No request of this device is queued or waits for an answer."""
        sem = getattr(dev, "_concurrent_requests_semaphore", None)
        return not getattr(dev, "_pending", {}) and (sem is None or (not sem.locked() and not sem.num_waiting))

    async def do(op):
        d = env.devs[op["d"]]
        k = op["op"]
        app = env.app
        if down[0] or app is None:
            return
        if k in ("report", "read", "topo", "relays", "grp_add", "grp_rem", "wait"):
            await env.do(op)
            return
        w.log("op", k, d.name)
        m = settle(d)
        dev = app.devices.get(d.eui)
        if k == "join":
            if m.state == "out" and d.on_network:
                effect(d.eui, d.nwk, True)
                app.handle_join(t.NWK(d.nwk), d.eui, t.NWK(0))
        elif k == "remove":
            n = len(removed)
            if dev is None:
                await app.remove(d.eui)
                w.check(len(removed) == n, "removed-event", f"removing the unknown {d.name} raised an event")
                return
            w.stats["removed"] += 1
            w.stats["removed_twice"] += m.state == "removing"
            w.stats["removed_offline"] += not d.reachable()
            w.stats["removed_interviewing"] += bool(dev.initializing)
            end_dev = dev.node_desc is not None and dev.node_desc.is_end_device
            free = idle(dev) and not dev.initializing and idle_radio() and m.state == "in"
            own = (0x40 if op["kids"] or op["dflt"] else 0) | (0x80 if op["rejoin"] else 0)
            par = 0x40 | (0x80 if op["rejoin"] else 0)
            parents, free_parents = {}, {}
            if end_dev:
                for p in app.devices.values():
                    if any(x.ieee == d.eui for x in app.topology.neighbors.get(p.ieee, [])):
                        parents[by.get(p.ieee)] = int(p.nwk)
                        free_parents[int(p.nwk)] = idle(p) and idle_radio()
            m.opts = (m.opts or []) + [(w.now, own, par, parents)]
            w.stats["rejoin_flag"] += op["rejoin"]
            if m.state == "in":
                m.state, m.t = "removing", w.now
                m.limit = w.now + (31 if end_dev else 8)
            ntx, nwk0 = len(radio.txs), int(dev.nwk)
            kw = {} if op["dflt"] else {"remove_children": op["kids"]}
            if op["rejoin"]:
                kw["rejoin"] = True
            t0 = w.now
            await app.remove(d.eui, **kw)
            w.check(w.now - t0 < 0.01, "blocked", f"remove() took {w.now - t0:.2f} s")
            w.check(d.eui in removed[n:], "removed-event", f"removing {d.name} raised no event")
            for g in app.groups.values():
                w.check(not any(i == d.eui for i, _ in g), "group", lambda: f"{d.name} is in group {int(g.group_id)} after its removal")
            gen = m.gen
            await asyncio.sleep(0.3001)
            if down[0] or env.app is not app or m.gen != gen:
                return
            sent = [x for x in radio.txs[ntx:] if int(x.cluster) == W.MGMT_LEAVE_REQ and bytes(x.data)[1:9] == d.ieee.to_bytes(8, "little")]
            if free and not any(int(x.dst) == nwk0 and x not in sent for x in radio.txs[ntx:]):
                w.stats["removed_idle"] += 1
                w.check(any(int(x.dst) == nwk0 for x in sent), "not-asked", lambda: f"{d.name} was removed and not asked to leave")
            for nwk, fr in free_parents.items():
                if fr and nwk and not any(int(x.dst) == nwk and x not in sent for x in radio.txs[ntx:]):
                    w.check(any(int(x.dst) == nwk for x in sent), "parent-not-asked", lambda: f"{d.name} was removed and its parent {nwk:#06x} not asked to remove it")
        elif k == "rejoin":
            come_back(d, op["how"], op["move"], op["alt"])
        elif k == "announce":
            if d.on_network:
                w.stats["reinterviewed"] += m.state == "in" and dev is not None and dev.initializing
                d.announce()
        elif k == "talk":
            if d.on_network:
                talk(d, op["a"])
        elif k == "leave":
            if d.on_network or m.state != "out":
                if op["gone"]:
                    d.on_network = False
                leave_ind(d)
        elif k == "grp_scan":
            dv = env.ready(d)
            if dv is not None:
                dv.schedule_group_membership_scan()
        elif k == "sleep":
            d.online = False
        elif k == "wake":
            d.online = True
        elif k == "restart":
            if busy[0]:
                return
            busy[0] = True
            try:
                await stop()
                await asyncio.sleep(95 + op["down"])
                await boot()
            finally:
                busy[0] = False
        else:
            raise HarnessError(k)

    def idle_radio():
        return radio.sending == 0

    busy = [False]
    await boot()
    w.on_quiet = quiet
    t0 = w.now
    tasks = []

    async def at(op):
        dt = t0 + op["at"] - w.now
        if dt > 0:
            await asyncio.sleep(dt)
        app = env.app
        try:
            await do(op)
        except Exception:
            # an application that was shut down meanwhile
            if app is env.app and not down[0]:
                raise

    for op in plan["ops"]:
        tasks.append(asyncio.create_task(at(op)))
    await asyncio.wait(tasks)
    for x in tasks:
        if x.exception() is not None:
            raise x.exception()
    # ---- the faults stop; devices on the network talk
    radio.faults_on = False
    for d in env.devs:
        d.online = True
    await asyncio.sleep(150.0003)
    for _ in range(3):
        for d in env.devs:
            if d.on_network:
                talk(d, 0xF002)
                await asyncio.sleep(7.0003)
    await asyncio.sleep(120.0003)
    for d in env.devs:
        # interviews that failed earlier are resumed when the device joins again
        dev = env.app.devices.get(d.eui)
        if d.on_network and dev is not None and (not dev.is_initialized or d.eui not in env.known):
            d.announce()
    await asyncio.sleep(120.0003)
    quiet()
    for ieee, k in joins.items():
        w.check(k == 0, "joined-event", lambda: f"{by[ieee].name} joined without a device_joined event")
    for d in env.devs:
        m = settle(d)
        dev = env.app.devices.get(d.eui)
        if d.on_network:
            w.stats["stayed"] += 1
            w.check(dev is not None, "lost", lambda: f"{d.name} is on the network, talks and is unknown (state {m.state})")
            if dev is not None:
                w.check(dev.is_initialized, "not-interviewed", lambda: f"{d.name} joined {w.now - m.t:.0f} s ago and is not interviewed")
                if dev.is_initialized:
                    whole(d, dev, "at the end")
                    w.check(d.eui in env.known, "not-announced", lambda: f"{d.name} is initialized but was never announced as such")
        else:
            w.check(m.state != "removing", "not-removed", f"{d.name} is still being removed")
    await stop()
    w.on_quiet = None
    w.sample = {"operations": [o["op"] for o in plan["ops"]], "states": {d.name: d.m.state for d in env.devs}}


PARTS = [Part("removal", 1, generate, run, max_steps=400_000)]
