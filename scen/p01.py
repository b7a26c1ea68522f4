"""P01: a clean restart reproduces the network model."""
import asyncio

from scen import common, persist
from sim.runner import Part

PROPERTY = "P01"
LEVEL = "exploration"
RUNS = {"quick": 7000, "thorough": 80000}
BATCH = 25
REAL = ["PersistingListener over real SQLite files", "ControllerApplication", "Device/Endpoint/Cluster", "Groups", "Topology",
        "BackupManager", "quirks v1 replacement"]
STUBS = ["radio and devices", "clock and scheduler", "SQLite thread (operations run in the loop, delayed and in order)"]
RULE = ("a run = 1..4 devices (some matching a quirk) and 5..60 operations out of joins, rejoins, address changes, reports, reads, "
        "writes, local updates and clears, unsupported marks, relays, topology scans, group changes, removals and backups, under "
        "message faults and database latency; then a clean shutdown and a reload, twice; distinct = distinct event sequence")
STATES = "per device (known, initialized, endpoints, cached values bucket) and groups/backups counts when time advances"
PROBES = ["restarts", "removed", "quirk_devices", "moved", "abrupt", "items"]
ASSUMPTIONS = ["attribute values are storable by SQLite (the others are P03's)", "devices keep their descriptors and model",
               "relays, neighbours and routes recorded before a device is initialized need not survive",
               "attributes that exist only on the device a quirk replaced may appear after a restart"]


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    quirk = rng.random() < 0.35
    devs = [persist.spec(rng, i, quirk and i == 0) for i in range(n)]
    span = rng.choice([10, 40, 120])
    mk = lambda: persist.gen_ops(rng, n, rng.choice([5, 12, 25, 60 if tier == "thorough" else 35]), span)  # noqa: E731
    ops = mk()
    jumps = rng.random() < 0.2
    gens = rng.choice([1, 1, 2])
    for o in ops:
        o["g_"] = 0
    if gens == 2:
        o2 = mk()
        for o in o2:
            o["g_"] = 1
        ops += o2
    if jumps:
        for _ in range(rng.choice([1, 1, 2])):
            ops.append({"op": "clock", "at": round(rng.uniform(0, span), 2), "g_": rng.randrange(gens), "d": 0,
                        "s": rng.choice([-9 * 365 * 86400.0, -86400.0, -3600.0, -45.0, -20.0, 40.0, 3600.0, 10 * 365 * 86400.0])})
    return {"cfg": {**common.net(rng, rng.choice(["none", "light", "medium"])), "devs": devs, "span": span, "gens": gens,
                    "db_delay": rng.choice([0, 0, 0.002, 0.05]), "abrupt": rng.random() < 0.35},
            "ops": ops}


async def run(w, plan):
    cfg = plan["cfg"]
    env = persist.Env(w, cfg, db_delay=cfg["db_delay"])
    await env.boot()

    def quiet():
        for d in env.devs:
            dev = env.dev(d)
            w.state(d.name, d.eui in env.known, dev is not None and dev.is_initialized, 0 if dev is None else len(dev.endpoints))
        w.state(len(env.app.groups), len(env.app.backups.backups))

    w.on_quiet = quiet
    jumped = any(o["op"] == "clock" and o["s"] < 0 for o in plan["ops"])
    for g in range(cfg["gens"]):
        ops = [o for o in plan["ops"] if o["g_"] == g]
        t0 = w.now
        tasks = await env.run_ops(ops, t0)
        if cfg["abrupt"]:
            await asyncio.sleep(w.dec.uniform("shutdown", 0.5, cfg["span"] + 5, grid=0.5))
            w.stats["abrupt"] += 1
        else:
            await asyncio.wait(tasks)
            await asyncio.sleep(w.dec.uniform("settle", 0.0, 60, grid=10))
        env.stopped = True
        # the moment of shutdown
        app = env.app
        mem = persist.content(app, only=env.known)
        extra = {}
        for i in env.known:
            dev = app.devices.get(i)
            if dev is None:
                continue
            extra[i] = {"model": dev.model, "manuf": dev.manufacturer, "cls": type(dev).__name__, "seen": dev.last_seen,
                        "ts": {(eid, int(c.is_client), int(c.cluster_id), a): x.timestamp()
                               for eid, ep in dev.endpoints.items() if eid for c in ep.clusters
                               for a, x in c._attr_last_updated.items() if a in c._attr_cache}}
        early = {k: set(v) for k, v in env.early.items()}
        for t in tasks:
            t.cancel()
        await app.shutdown()
        await asyncio.wait(tasks)
        w.on_quiet = None
        w.stats["restarts"] += 1
        w.stats["items"] += len(mem)
        # ---- reload
        await env.boot(start=False)
        app = env.app
        got = persist.content(app)
        qd = {i for i, x in extra.items() if x["cls"] in ("Q0", "Q1")}
        w.stats["quirk_devices"] += len(qd)
        for k in list(mem):
            if k[0] in early and k[1] in early[k[0]]:
                del mem[k]
                got.pop(k, None)
            elif k[0] in ("at", "un") and k[1] in qd and k[0] == "un" and k not in got:
                # marks on clusters that only the quirk has are not stored
                d = next((d for d in env.devs if d.eui == k[1]), None)
                if d is not None and (k[2] not in d.eps or k[4] not in d.eps[k[2]]["ins"] + d.eps[k[2]]["outs"]):
                    del mem[k]
        for k in list(got):
            if k not in mem and k[0] in ("at", "un") and k[1] in qd:
                del got[k]
        for k in [k for k in mem if k[0] == "at" and k in got]:
            a, b = mem[k], got[k]
            if isinstance(a, tuple) and a[0] == "EUI64" and b == a[1]:
                dev = app.devices[k[1]]
                cl = (dev.endpoints[k[2]].out_clusters if k[3] else dev.endpoints[k[2]].in_clusters)[k[4]]
                if k[5] not in cl.attributes:
                    w.violate("undefined-ieee-attribute-as-text", f"{k}: {a} is restored as {b!r}")
                    del mem[k], got[k]
        if mem != got:
            miss = [k for k in mem if k not in got]
            new = [k for k in got if k not in mem]
            kinds = sorted({k[0] for k in mem.keys() | got.keys() if mem.get(k) != got.get(k)})
            w.violate("lost" if miss else "invented" if new else "changed",
                      f"after a clean restart ({'+'.join(kinds)}): {persist.show_diff(mem, got)}")
        for i, x in extra.items():
            dev = app.devices.get(i)
            if dev is None:
                continue
            w.check((dev.model, dev.manufacturer) == (x["model"], x["manuf"]), "model-info",
                    lambda: f"{i}: model/manufacturer {dev.model!r}/{dev.manufacturer!r} instead of {x['model']!r}/{x['manuf']!r}")
            w.check(type(dev).__name__ == x["cls"], "quirk-class", lambda: f"{i}: {type(dev).__name__} instead of {x['cls']}")
            a, b = x["seen"], dev.last_seen
            if a is None or b is None:
                w.check(a is None and b is None, "last-seen-lost", lambda: f"{i}: last_seen {b} instead of {a}")
            else:
                w.check(abs(a - b) <= 30 + 1e-3 and (jumped or b <= a + 1e-3), "last-seen", lambda: f"{i}: last_seen {b} instead of {a}")
            for (eid, cl, cid, attr), ts in x["ts"].items():
                ep = dev.endpoints.get(eid)
                c = None if ep is None else (ep.out_clusters if cl else ep.in_clusters).get(cid)
                if c is None or attr not in c._attr_cache:
                    continue
                b = c._attr_last_updated[attr].timestamp()
                w.check(abs(ts - b) <= 30 + 1e-3 and (jumped or b <= ts + 1e-3), "timestamp",
                        lambda: f"{i} {eid} {cid:#06x} {attr:#06x}: updated {ts}, reloaded {b}")
        if g + 1 < cfg["gens"]:
            await app.startup()
            w.on_quiet = quiet
            env.stopped = False
        else:
            await persist.close_copy(app)
    w.sample = {"devices": len(env.devs), "ops": plan["ops"][:5], "items": len(mem)}


PARTS = [Part("history", 1, generate, run, max_steps=400_000)]
