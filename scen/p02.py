"""P02: after a crash the stored network is a prefix of its history."""
import asyncio
import sqlite3

from scen import common, persist
from sim import storage as ST
from sim.runner import Part

PROPERTY = "P02"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 60000}
BATCH = 20
REAL = ["PersistingListener over real SQLite files and write-ahead logs", "SQLite recovery", "ControllerApplication",
        "Device/Endpoint/Cluster", "Groups", "Topology", "BackupManager"]
STUBS = ["radio and devices", "clock and scheduler", "SQLite thread (operations run in the loop, delayed and in order)",
         "process kill and power loss (copies of the files, the latter with a truncated or torn log)"]
RULE = ("a run = 1..3 devices, 5..35 operations, database latency 0..80 ms; crash images are taken before or after drawn "
        "database steps, from the very first one on (process kill: files as they are; power loss: log cut or torn at a drawn byte), "
        "each is loaded by a fresh application and compared with every allowed prefix of the events; one image is restarted from "
        "and the history goes on; distinct = distinct event sequence")
STATES = "(kind of crash, database step kind and table, items stored bucket)"
PROBES = ["images", "power_images", "mid_transaction", "windows", "restarts", "ahead"]
ASSUMPTIONS = ["a killed process loses nothing that was written; a power loss keeps a prefix of the write-ahead log (fsync order of "
               "SQLite is trusted)", "saving a device may already contain later changes of that device",
               "last-seen and attribute timestamps are not compared"]


def generate(rng, tier):
    n = rng.choice([1, 1, 2, 3])
    devs = [persist.spec(rng, i) for i in range(n)]
    span = rng.choice([5, 20, 60])
    ops = persist.gen_ops(rng, n, rng.choice([5, 12, 25, 60 if tier == "thorough" else 35]), span)
    for o in ops:
        o["g_"] = 0
    gens = rng.choice([1, 1, 2])
    if gens == 2:
        o2 = persist.gen_ops(rng, n, rng.choice([5, 15]), span)
        for o in o2:
            o["g_"] = 1
        ops += o2
    return {"cfg": {**common.net(rng, rng.choice(["none", "light", "medium"])), "devs": devs, "span": span, "gens": gens,
                    "db_delay": rng.choice([0, 0.002, 0.02, 0.08]), "img_p": rng.choice([0.01, 0.03, 0.1]),
                    "power_p": rng.choice([0, 0.3, 1.0]), "boot_p": rng.choice([0, 0, 0.05])}, "ops": ops}


def canon(items):
    """IEEE addresses of undefined attributes come back as text (known finding of P01)."""
    return {k: (v[1] if isinstance(v, tuple) and v and v[0] == "EUI64" else v) for k, v in items.items()}


DEVKEYS = ("dev", "nd", "ep", "cl", "at", "un", "rel")


def check_image(w, img, got, m0, events, saves):
    """Is ``got`` the effect of events[:k] for some k in [img.L, img.N]?"""
    got = canon(got)
    m = dict(m0)
    best = None
    L, N = img["L"], img["N"]
    for k in range(0, N + 1):
        if k:
            persist.apply(m, events[k - 1])
        if k < L:
            continue
        c = canon(m)
        if c == got:
            w.stats["windows"] += N > L
            return
        diff = [x for x in set(c) | set(got) if c.get(x) != got.get(x)]
        # a save reads the device when it is executed
        act = {}
        for s, (i, e) in saves.items():
            if s < k <= min(e, N):
                act[i] = max(act.get(i, 0), min(e, N))
        if all(x[0] in DEVKEYS and x[1] in act for x in diff):
            left = set(diff)
            mm = dict(m)
            for j in range(k, max(act.values(), default=k)):
                if events[j].name != "device_removed":  # the object that is saved lives on
                    persist.apply(mm, events[j])
                cc = canon(mm)
                left -= {x for x in left if j + 1 <= act[x[1]] and cc.get(x) == got.get(x)}
                if not left:
                    w.stats["ahead"] += 1
                    return
        if best is None or len(diff) < best[0]:
            best = (len(diff), k, persist.show_diff(c, got, 4))
    lost = L > 0
    w.violate("not-a-prefix", f"{img['what']}: the stored network matches no prefix {L}..{N} of the {len(events)} events; closest is "
              f"{best[1]} with {best[0]} differences: {best[2]}; events around: {[repr(e) for e in events[max(0, best[1] - 2):best[1] + 2]]}"
              f"{'' if lost else ' (power loss)'}"[:1500])


async def run(w, plan):
    cfg = plan["cfg"]
    env = persist.Env(w, cfg, db_delay=cfg["db_delay"])
    st = w.storage
    m0 = {}
    for g in range(cfg["gens"]):
        images, saves = [], {}
        env.events = []
        ph = {"last_idle": 0, "p": cfg["boot_p"] if g == 0 else cfg["img_p"], "txn": False, "handling": 0, "commits": 0}
        open_saves = []

        def tear(n, sql, phase, con):
            # without a journal on disk a kill in the middle of a commit leaves some pages written
            if "jm" not in ph:
                ph["jm"] = con.execute("PRAGMA journal_mode").fetchone()[0]
            if ph["jm"] not in ("memory", "off"):
                return
            tmp = f"{w.scratch}/before.db"
            if phase == "before":
                ST.copy_db(env.path, tmp)
                ph["before"] = True
                return
            if not ph.pop("before", False) or not w.dec.chance("img", ph["p"]):
                return
            path = f"{w.scratch}/img{g}-{len(images)}.db"
            ST.copy_db(env.path, path)
            a, b = open(tmp, "rb").read(), bytearray(open(path, "rb").read())
            for off in range(0, len(a), 4096):
                if w.dec.chance("torn_page", 0.5):
                    b[off:off + 4096] = a[off:off + 4096]
            open(path, "wb").write(bytes(b))
            w.stats["fault_torn_commit"] += 1
            w.stats["images"] += 1
            images.append({"path": path, "N": len(env.events), "L": ph["last_idle"], "what": f"killed inside commit (step {n})"})

        def on_step(n, kind, sql, phase, conn):
            con = conn._connection
            # an event that is stored in several transactions is where a kill could leave half of it
            split = bool(ph["handling"] and ph["commits"]) and phase == "before" and kind in ("executemany", "commit", "execute")
            if kind == "commit" and phase == "after":
                ph["commits"] += 1
            if kind in ("close", "connect") or len(images) >= (16 if split else 8):
                return
            if kind == "commit" and con is not None and env.app is not None:
                tear(n, sql, phase, con)
            mid = con is not None and con.in_transaction and kind in ("executemany", "commit", "execute")
            if split:
                w.stats["split_event"] += 1
            if not w.dec.chance("img", 0.6 if split else min(1.0, ph["p"] * (3 if mid else 1))):
                return
            if env.app is None and not ST.os.path.exists(env.path):
                return
            power = g == 0 and env.app is not None and w.dec.chance("power", cfg["power_p"])
            path = f"{w.scratch}/img{g}-{len(images)}.db"
            ST.copy_db(env.path, path)
            img = {"path": path, "N": len(env.events), "L": ph["last_idle"], "what": f"killed {phase} step {n} ({kind} {' '.join(sql.split())[:40]})"}
            if con is not None and con.in_transaction:
                w.stats["mid_transaction"] += 1
            if power:
                size = ST.wal_size(path)
                keep = int(w.dec.uniform("keep", 0, size))
                mode = ("cut", "frame", "flip")[w.dec.pick("torn", 3)]
                if mode == "frame" and size > 32:
                    keep = 32 + (keep - 32) // 4120 * 4120 if keep > 32 else keep
                if mode == "flip" and 32 < keep < size:
                    with open(path + "-wal", "r+b") as f:
                        f.seek(keep)
                        b = f.read(512)
                        f.seek(keep)
                        f.write(bytes(x ^ 0xA5 for x in b))
                else:
                    ST.power_loss(path, keep)
                img["L"] = 0
                img["what"] = f"power lost {phase} step {n} ({kind} {' '.join(sql.split())[:40]}), log {mode} at {keep} of {size}"
                w.stats["power_images"] += 1
                w.stats["fault_power_loss"] += 1
            else:
                w.stats["fault_kill"] += 1
            w.stats["images"] += 1
            w.state("power" if power else "kill", kind, " ".join(sql.split()[:3])[:30], phase)
            images.append(img)

        def quiet():
            if env.app is None:
                return
            n = len(env.events)
            if env.db_idle():
                ph["last_idle"] = n
                ph["seen"] = n
                for s in list(saves):
                    if saves[s][1] is None:
                        saves[s] = (saves[s][0], n)
            for j in range(ph.get("scan", 0), n):
                if env.events[j].name == "raw_device_initialized":
                    saves[j] = (env.events[j].arg[0], n if env.db_idle() else None)
            ph["scan"] = n

        def watch(lst):
            """Notes when the handling of a queued event begins and ends."""
            enqueue, seen = getattr(lst, "enqueue", None), set()
            if enqueue is None:
                return

            def wrapped(orig):
                async def f(*args, **kwargs):
                    ph["handling"] += 1
                    ph["commits"] = 0
                    try:
                        return await orig(*args, **kwargs)
                    finally:
                        ph["handling"] -= 1
                return f

            def enq(name, *args):
                orig = getattr(lst, name, None) if isinstance(name, str) and name not in seen else None
                if asyncio.iscoroutinefunction(orig):
                    seen.add(name)
                    setattr(lst, name, wrapped(orig))
                return enqueue(name, *args)

            lst.enqueue = enq

        w.on_quiet = quiet
        st.on_step = on_step
        await env.boot()
        watch(env.app._dblistener)
        ph["p"] = cfg["img_p"]
        t0 = w.now
        tasks = await env.run_ops([o for o in plan["ops"] if o["g_"] == g], t0)
        await asyncio.sleep(w.dec.uniform("crash", 0.2, cfg["span"] + 5))
        if not images or w.dec.chance("final", 0.5):
            ph["p"] = 1.0
            on_step(st.steps, "stop", "", "after", env.app._dblistener._db)
        st.on_step = None
        quiet_n = len(env.events)
        for t in tasks:
            t.cancel()
        events = env.events
        for j in range(ph.get("scan", 0), quiet_n):
            if events[j].name == "raw_device_initialized":
                saves[j] = (events[j].arg[0], quiet_n)
        saves = {s: (i, quiet_n if e is None else e) for s, (i, e) in saves.items()}
        w.on_quiet = None
        nxt = images[-1] if images and g + 1 < cfg["gens"] else None
        if nxt is not None:
            ST.copy_db(nxt["path"], nxt["path"] + ".next")
            await env.crash(nxt["path"] + ".next")
            w.stats["restarts"] += 1
        else:
            await env.shutdown()
        await asyncio.wait(tasks)
        loaded = None
        delay, st.delay = st.delay, 0
        for img in images:
            con = sqlite3.connect(img["path"])
            try:
                ok = con.execute("PRAGMA integrity_check").fetchall()
                fk = con.execute("PRAGMA foreign_key_check").fetchall()
            except sqlite3.Error as e:
                ok, fk = [(repr(e),)], []
            finally:
                con.close()
            w.check(ok == [("ok",)] and not fk, "corrupt", lambda: f"{img['what']}: {ok} {fk}")
            try:
                app = await env.load_copy(img["path"])
            except Exception as e:  # noqa: BLE001
                w.violate("not-loadable", f"{img['what']}: {e!r}")
                continue
            got = persist.content(app)
            check_image(w, img, got, m0, events, saves)
            if img is nxt:
                loaded = got
            await persist.close_copy(app)
        st.delay = delay
        if nxt is None or loaded is None:
            break
        m0 = loaded
    w.sample = {"devices": len(env.devs), "ops": plan["ops"][:5], "images": [i["what"] for i in images][:4], "events": len(events)}


PARTS = [Part("crash", 1, generate, run, max_steps=400_000)]
