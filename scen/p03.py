"""P03: a storage error costs at most the event it hits."""
import asyncio
import itertools
import json
import sqlite3

from scen import common, persist
from sim.runner import Part

PROPERTY = "P03"
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 100000}
BATCH = 25
REAL = ["PersistingListener over real SQLite files", "ControllerApplication", "Device/Endpoint/Cluster", "Groups", "Topology",
        "BackupManager"]
STUBS = ["radio and devices", "clock and scheduler", "SQLite thread (operations run in the loop, delayed and in order)",
         "SQLite errors (raised instead of, after, or together with a rollback of the real statement or commit)"]
RULE = ("a run = 1..3 devices and 5..35 operations, some carrying values SQLite cannot store, with 0..3 drawn failures of single "
        "statements or commits, or an episode during which every statement fails; after a clean shutdown the reloaded network must "
        "equal the reference model with at most one event left out per failure, taken from the events outstanding at that moment "
        "(for an episode: one contiguous range); distinct = distinct event sequence")
STATES = "(failed statement kind, table, way of failing) and number of events left out"
PROBES = ["fault_skip", "fault_rollback", "fault_done", "episodes", "unstorable", "lost_events", "shutdown_faults"]
ASSUMPTIONS = ["saving a device may already contain later changes of that device", "last-seen and attribute timestamps are not compared",
               "an unstorable value leaves the previously stored one in place"]


def generate(rng, tier):
    n = rng.choice([1, 1, 2, 3])
    devs = [persist.spec(rng, i) for i in range(n)]
    span = rng.choice([5, 20, 60])
    ops = persist.gen_ops(rng, n, rng.choice([5, 12, 25, 60 if tier == "thorough" else 35]), span, unstorable=rng.choice([0, 0.1, 0.3]))
    if rng.random() < 0.3:  # unstorable values cached before the device is saved
        for i in range(n):
            ops.append({"op": "preset", "d": i, "at": 0, "ty": rng.choice(persist.UNSTORABLE)[0]})
    mode = rng.choice(["single", "single", "single", "episode", "none"])
    return {"cfg": {**common.net(rng, rng.choice(["none", "light", "medium"])), "devs": devs, "span": span,
                    "db_delay": rng.choice([0, 0.002, 0.02]), "mode": mode, "faults": rng.choice([1, 1, 2, 3]),
                    "p": rng.choice([0.005, 0.02, 0.1]), "from": round(rng.uniform(0, span), 1),
                    "len": rng.choice([0.5, 3, 10]), "shutdown_fault": rng.random() < 0.15}, "ops": ops}


ERRORS = [lambda: sqlite3.OperationalError("disk I/O error"), lambda: sqlite3.OperationalError("database or disk is full"),
          lambda: sqlite3.OperationalError("database is locked"), lambda: sqlite3.DatabaseError("database disk image is malformed"),
          lambda: MemoryError()]


def replay(events, drop):
    m = {}
    for j, e in enumerate(events):
        if j not in drop:
            persist.apply(m, e)
    return m


def canon(items):
    return {k: (v[1] if isinstance(v, tuple) and v and v[0] == "EUI64" else v) for k, v in items.items()}


def explain(events, faults, got):
    """The events left out, or None."""
    want = canon(replay(events, ()))
    if want == got:
        return ()
    base = want
    wins = [range(a, b) for a, b in faults]
    for size in range(1, len(wins) + 1):
        tried = set()
        for ws in itertools.combinations(range(len(wins)), size):
            for drop in itertools.product(*[wins[i] for i in ws]):
                key = frozenset(drop)
                if len(key) != size or key in tried:
                    continue
                tried.add(key)
                if len(tried) > 20000:
                    return "too many"
                if canon(replay(events, key)) == got:
                    return tuple(sorted(key))
    return None


async def run(w, plan):
    cfg = plan["cfg"]
    env = persist.Env(w, cfg, db_delay=cfg["db_delay"])
    st = w.storage
    await env.boot()
    faults, ph = [], {"idle": 0, "on": cfg["mode"] == "single", "epi": False}
    t0 = w.now

    def quiet():
        if env.app is not None and env.app._dblistener is not None and env.db_idle():
            ph["idle"] = len(env.events)

    def inject(kind, sql, n):
        if kind in ("close", "connect"):
            return None
        if ph["epi"]:
            if kind == "rollback":
                return None
            if kind == "commit":
                return None  # nothing was written
            w.stats["fault_episode_stmt"] += 1
            return "skip", sqlite3.OperationalError("database or disk is full")
        if ph.get("down") and "wal_checkpoint" in sql:
            w.stats["shutdown_faults"] += 1
            return "skip", sqlite3.OperationalError("disk I/O error")
        if not ph["on"] or len(faults) >= cfg["faults"] or not w.dec.chance("dbf", cfg["p"]):
            return None
        how = ("skip", "rollback", "done")[w.dec.pick("how", 3)]
        if kind == "rollback":
            how = "done"
        faults.append((ph["idle"], len(env.events)))
        w.stats[f"fault_{how}"] += 1
        w.state(kind, " ".join(sql.split()[:4])[:40], how)
        return how, ERRORS[w.dec.pick("err", len(ERRORS))]()

    w.on_quiet = quiet
    st.inject = inject
    t0 = w.now
    presets = [o for o in plan["ops"] if o["op"] == "preset"]
    tasks = await env.run_ops([o for o in plan["ops"] if o["op"] != "preset"], t0)

    async def preset(o):
        # a report received while the device is being interviewed
        for _ in range(40):
            await asyncio.sleep(0.1)
            dev = env.dev(env.devs[o["d"]])
            if dev is None or env.stopped:
                continue
            if env.devs[o["d"]].eui in env.known:
                return
            cl = [c for ep in dev.non_zdo_endpoints for c in ep.clusters]
            if cl:
                _, mk = next(x for x in persist.UNSTORABLE if x[0] == o["ty"])
                import random
                from zigpy.zcl import foundation

                val = foundation.TypeValue.deserialize(bytes([o["ty"]]) + mk(random.Random(1)))[0].value
                cl[0].update_attribute(0xF0AA, val)
                w.stats["unstorable"] += 1
                return

    tasks += [asyncio.create_task(preset(o)) for o in presets]
    if cfg["mode"] == "episode":
        await asyncio.sleep(cfg["from"])
        a = (ph["idle"], len(env.events))
        ph["epi"] = True
        w.stats["episodes"] += 1
        await asyncio.sleep(cfg["len"])
        ph["epi"] = False
        b = (ph["idle"], len(env.events))
    left = t0 + cfg["span"] * 0.8 - w.now
    if left > 0:
        await asyncio.sleep(left)
    ph["on"] = False
    left = t0 + cfg["span"] + 5 - w.now
    if left > 0:
        await asyncio.sleep(left)
    env.stopped = True
    app = env.app
    conn = app._dblistener._db
    for t in tasks:
        t.cancel()
    if cfg["shutdown_fault"]:
        ph["down"] = True
    await app.shutdown()
    w.check(conn._connection is None, "left-open", "the database connection is still open after shutdown")
    await asyncio.wait(tasks)
    w.on_quiet = None
    st.inject = None
    events = env.events
    delay, st.delay = st.delay, 0
    try:
        app = await env.load_copy(env.path)
    except Exception as e:  # noqa: BLE001
        w.violate("not-loadable", f"{e!r}")
        return
    got = {k: v for k, v in persist.content(app).items() if k[0] != "bk"}
    await persist.close_copy(app)
    con = sqlite3.connect(env.path)
    for (js,) in con.execute(f"SELECT backup_json FROM network_backups_v{version(con)}"):
        d = json.loads(js)
        got[("bk", d["backup_time"])] = json.dumps(d, sort_keys=True)
    con.close()
    got = canon(got)
    if cfg["mode"] == "episode":
        for lo in range(a[0], a[1] + 1):
            for hi in range(max(b[0], lo), b[1] + 1):
                if canon(replay(events, range(lo, hi))) == got:
                    w.stats["lost_events"] += hi - lo
                    break
            else:
                continue
            break
        else:
            c = canon(replay(events, range(a[0], b[0])))
            w.violate("episode", f"no range {a[0]}..{a[1]} to {b[0]}..{b[1]} of the {len(events)} events explains the result; "
                      f"without {a[0]}..{b[0]}: {persist.show_diff(c, got)}")
    else:
        drop = explain(events, faults, got)
        if drop == "too many":
            w.stats["inconclusive"] += 1
        elif drop is None:
            c = canon(replay(events, ()))
            near = [repr(e) for x, y in faults for e in events[max(0, x - 1):y + 1]][:8]
            w.violate("lost-more" if faults else "lost", f"{len(faults)} failures at {faults}: leaving out one event each does not explain "
                      f"{persist.show_diff(c, got)}; events there: {near}"[:1500])
        else:
            w.stats["lost_events"] += len(drop)
            w.state("lost", len(drop), len(faults))
    w.sample = {"devices": len(env.devs), "ops": plan["ops"][:5], "faults": faults, "mode": cfg["mode"], "events": len(events)}


def version(con):
    return con.execute("PRAGMA user_version").fetchone()[0]


PARTS = [Part("errors", 1, generate, run, max_steps=400_000)]
