"""P04: schema migrations are all-or-nothing and lose no data."""
import json
import pathlib
import sqlite3
import struct

from scen import common, persist
from sim import storage as ST, wire as W
from sim.runner import Part

PROPERTY = "P04"
LEVEL = "exploration"
RUNS = {"quick": 1300, "thorough": 40000}
BATCH = 10
REAL = ["PersistingListener migrations over real SQLite files", "SQLite transactions, journals and recovery",
        "ControllerApplication loading"]
STUBS = ["older versions (databases written with copies of the old schemas)", "SQLite thread (operations run in the loop, delayed "
         "and in order)", "SQLite errors (raised instead of, after, or together with a rollback)", "process kill and power loss (file copies)"]
RULE = ("a run = a generated database of a drawn schema version 0..12 (with leftover tables of even older versions), opened by the "
        "current code without faults, with one failing statement or commit at a drawn step, or killed at several drawn steps (files "
        "as they are, or with a cut log); or a database newer than the code, or an inconsistent one; distinct = distinct event sequence")
STATES = "(source version, mode, phase of the step hit)"
PROBES = ["migrations", "failed_opens", "images", "refused", "newer", "retries", "fault_stmt", "fault_kill", "fault_power_loss"]
ASSUMPTIONS = ["the source content satisfies the constraints of the current schema", "databases of version 0..3 have no leftover suffixed tables"]

SCHEMA_DIR = pathlib.Path(__file__).resolve().parent.parent / "data" / "schemas"


def ieee_s(n):
    return ":".join(f"{b:02x}" for b in struct.pack(">Q", n))


def gen_content(rng, v, tier):
    devs = []
    for i in range(rng.choice([1, 1, 2, 3, 6 if tier == "thorough" else 4])):
        n = 0x00158D0000010000 + i * 0x101 + 1
        d = {"ieee": ieee_s(n), "nwk": 0x1000 + i, "status": rng.choice([2, 2, 2, 1, 0]),
             "seen": rng.choice([0, 1600000000000, 1650000000123]), "eps": [], "attrs": [], "un": [], "nb": [], "rt": []}
        if rng.random() < 0.85 and v >= 1:
            d["nd"] = [rng.choice([0, 1, 2]), rng.randint(0, 1), rng.randint(0, 1), 0, rng.randint(0, 1), 8, rng.choice([0x80, 0x8E]),
                       rng.randint(0, 65535), 82, 82, rng.choice([0, 0x2C40]), 82, rng.randint(0, 3)]
        quirk = rng.random() < 0.2 and i == 0
        if quirk:
            d["eps"] = [[1, 0x0104, 0x0051, 1, [0, 3, 4, 6], [0x19]]]
            d["attrs"] = [[1, 0, 4, "AcmeQ"], [1, 0, 5, "QUIRK0"], [1, 0x402, 0, 2150], [2, 6, 0, 1], [1, 6, 0, 0]]
            d["quirk"] = True
        else:
            for e in sorted(rng.sample(range(1, 240), rng.choice([0, 1, 2, 3]))):
                ins = sorted(rng.sample([0, 1, 3, 4, 6, 8, 0x402, 0xFC00], rng.randint(0, 5)))
                outs = sorted(rng.sample([6, 8, 0x19], rng.randint(0, 2)))
                d["eps"].append([e, rng.choice([0x0104, 0xC05E, 0xC001]), rng.choice([0, 0x51, 0x100]), rng.choice([1, 1, 1, 3]), ins, outs])
                for c in ins:
                    for a in rng.sample([0, 1, 5, 0x4000, 0xF000], rng.randint(0, 3)):
                        if c == 0 and a == 5:
                            val = f"Model {i}"
                        else:
                            val = rng.choice([0, 1, 255, 2**40, "text", "", "é", ["b", "00ff"], 1.5, -3])
                        d["attrs"].append([e, c, a, val])
                    if v >= 7 and rng.random() < 0.3:
                        d["un"].append([e, c, rng.choice([2, 0xF001])])
        if v >= 3 and rng.random() < 0.5:
            d["nb"] = [[ieee_s(0x1122334455667788), ieee_s(0x00124B0000000000 + rng.randint(0, 99)), rng.randint(1, 0xFFF0),
                        rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, 4), rng.randint(0, 1), rng.randint(0, 2), 0,
                        rng.randint(0, 15), rng.randint(0, 255)] for _ in range(rng.randint(1, 5))]
        if v >= 11 and rng.random() < 0.5:
            d["rt"] = [[rng.randint(1, 0xFFF0), rng.choice([0, 1, 2]), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1), 0,
                        rng.randint(1, 0xFFF0)] for _ in range(rng.randint(1, 5))]
        if v >= 1 and rng.random() < 0.3:
            d["rel"] = rng.sample(range(1, 0xFFF0), rng.randint(0, 3))
        devs.append(d)
    groups, members = [], []
    if v >= 1:
        for g in rng.sample(range(1, 50), rng.randint(0, 3)):
            groups.append([g, rng.choice(["Lamps", "", f"g {g}"])])
            for i, d in enumerate(devs):
                for e in d["eps"]:
                    if rng.random() < 0.3:
                        members.append([g, i, e[0]])
    bks = []
    if v >= 10:
        for j in range(rng.randint(0, 3)):
            bks.append([f"202{j}-01-0{j + 1}T00:00:0{j}.12345{j}+00:00", f"{0x1A60 + j:04X}", rng.randint(0, 10**6), rng.randint(11, 26)])
    return {"devs": devs, "groups": groups, "members": members, "backups": bks}


def generate(rng, tier):
    mode = rng.choice(["clean", "fault", "fault", "crash", "crash", "newer", "inconsistent"])
    v = rng.randint(0, 12)
    return {"cfg": {"v": v, "mode": mode, "content": gen_content(rng, v, tier), "leftover": v >= 5 and rng.random() < 0.4,
                    "hits": rng.choice([1, 1, 2, 3]), "delay": rng.choice([0, 0, 0.001]), "uv": rng.choice([0, 4, 5, 7, 11, 12, 14, 99]),
                    "imgs": rng.choice([2, 4, 8]), "wal": rng.random() < 0.7, "final": rng.random() < 0.3}, "ops": [], "nops": 1}


def val(x):
    return bytes.fromhex(x[1]) if isinstance(x, list) else x


def backup_json(b):
    t, pan, tx, ch = b
    key = {"partner_ieee": "ff:ff:ff:ff:ff:ff:ff:ff", "rx_counter": 0, "seq": 0}
    return {"version": 1, "backup_time": t,
            "network_info": {"channel": ch, "channel_mask": [ch], "children": [], "extended_pan_id": f"11:22:33:44:55:66:{pan[:2].lower()}:{pan[2:].lower()}",
                             "key_table": [], "metadata": {}, "network_key": {**key, "key": ":".join([f"{ch:02x}"] * 16), "tx_counter": tx},
                             "nwk_addresses": {}, "nwk_manager_id": "0000", "nwk_update_id": 0, "pan_id": pan, "security_level": 5,
                             "source": "old@1", "stack_specific": {},
                             "tc_link_key": {"key": "5a:69:67:42:65:65:41:6c:6c:69:61:6e:63:65:30:39", "partner_ieee": "00:12:4b:00:aa:bb:00:01",
                                             "rx_counter": 0, "seq": 0, "tx_counter": 0}},
            "node_info": {"ieee": "00:12:4b:00:aa:bb:00:01", "logical_type": "coordinator", "manufacturer": "M", "model": "S", "nwk": "0000",
                          "version": "1.0"}}


def script(v):
    return (SCHEMA_DIR / f"schema_v{v}.sql").read_text()


def fill(con, c, v):
    """Write content as version v did."""
    s = "" if v < 5 else f"_v{v}"

    def ins(table, row):
        con.execute(f"INSERT INTO {table} VALUES ({','.join('?' * len(row))})", row)

    cl_in = "clusters" if v < 5 else f"in_clusters{s}" if v < 13 else f"clusters{s}"
    cl_out = "output_clusters" if v < 5 else f"out_clusters{s}" if v < 13 else f"clusters{s}"
    at = "attributes" if v < 5 else f"attributes_cache{s}"
    for d in c["devs"]:
        i = d["ieee"]
        row = [i, d["nwk"], d["status"]]
        if v == 8:
            row.append(d["seen"])
        elif v >= 9:
            row.append(d["seen"] / 1000)
        ins(f"devices{s}", row)
        for e, prof, dt, st, ins_, outs in d["eps"]:
            ins(f"endpoints{s}", [i, e, prof, dt, st])
            for x in ins_:
                ins(cl_in, [i, e, x] if v < 13 else [i, e, 0, x])
            for x in outs:
                ins(cl_out, [i, e, x] if v < 13 else [i, e, 1, x])
        for e, cid, a, x in d["attrs"]:
            if v == 5 and e not in [y[0] for y in d["eps"]]:
                continue  # the v5 table required the endpoint
            row = [i, e, cid, a, val(x)]
            if v == 12:
                row.append(d["seen"] / 1000)
            elif v >= 13:
                row = [i, e, 0, cid, a, val(x), d["seen"] / 1000]
            ins(at, row)
        for e, cid, a in d["un"]:
            ins(f"unsupported_attributes{s}", [i, e, cid, a] if v < 13 else [i, e, 0, cid, a])
        if "nd" in d:
            if v < 4:
                ins("node_descriptors", [i, nd_bytes(d["nd"])])
            else:
                ins("node_descriptors_v4" if v == 4 else f"node_descriptors{s}", [i, *d["nd"]])
        for n in d["nb"]:
            if v < 4:
                ins("neighbors", [i, n[0], n[1], n[2], n[3] | n[4] << 2 | n[5] << 4 | n[6] << 7, n[7], n[9], n[10]])
            else:
                ins("neighbors_v4" if v == 4 else f"neighbors{s}", [i, *n])
        for r in d["rt"]:
            ins(f"routes{s}", [i, *r])
        if "rel" in d:
            ins(f"relays{s}", [i, bytes([len(d["rel"])]) + b"".join(W.u16(x) for x in d["rel"])])
    for g, name in c["groups"]:
        ins(f"groups{s}", [g, name])
    for g, i, e in c["members"]:
        ins(f"group_members{s}", [g, c["devs"][i]["ieee"], e])
    for b in c["backups"]:
        ins(f"network_backups{s}", [None, json.dumps(backup_json(b))])


def nd_bytes(n):
    lt, cx, us, rs, aps, fb, mac, man, mb, mi, sm, mo, dc = n
    return bytes([lt | cx << 3 | us << 4 | rs << 5, aps | fb << 3, mac]) + W.u16(man) + bytes([mb]) + W.u16(mi) + W.u16(sm) + W.u16(mo) + bytes([dc])


def build(path, cfg):
    c, v = cfg["content"], cfg["v"]
    con = sqlite3.connect(path)
    if cfg["wal"]:
        con.execute("PRAGMA journal_mode = WAL")
    if cfg["leftover"]:
        # tables of the versions this database was migrated from
        con.executescript(script(4))
        old = {"devs": [{**d, "un": [], "rt": []} for d in c["devs"]], "groups": c["groups"], "members": c["members"], "backups": []}
        fill(con, old, 4)
        for u in range(5, v):
            con.executescript(script(u))
    con.executescript(script(v))
    fill(con, c, v)
    con.commit()
    con.close()


def expected(R, cfg):
    """The model the current code must load, as content items."""
    c, v = cfg["content"], cfg["v"]
    t = R.t
    out, seen = {}, {}
    for d in c["devs"]:
        i = t.EUI64.convert(d["ieee"])
        out[("dev", i)] = (d["nwk"], d["status"])
        seen[i] = None if v < 8 or not d["seen"] else d["seen"] / 1000
        if "nd" in d:
            out[("nd", i)] = nd_bytes(d["nd"])
        eps = {e[0]: e for e in d["eps"]}
        for e, prof, dt, st, ins, outs in d["eps"]:
            out[("ep", i, e)] = (prof, dt, st) if st != 3 else (None, None, 3)
            for x in ins:
                out[("cl", i, e, 0, x)] = 1
            for x in outs:
                out[("cl", i, e, 1, x)] = 1
        if d.get("quirk"):
            out[("ep", i, 2)] = (0x0104, 0x0051, 1)
            out[("cl", i, 1, 0, 0x402)] = out[("cl", i, 2, 0, 6)] = 1
        for e, cid, a, x in d["attrs"]:
            if ("cl", i, e, 0, cid) in out and not (v == 5 and e not in eps and not cfg["leftover"]):
                out[("at", i, e, 0, cid, a)] = val(x)
        for e, cid, a in d["un"]:
            out[("un", i, e, 0, cid, a)] = 1
        if d["nb"]:
            out[("nb", i)] = tuple(sorted(
                bytes.fromhex(n[0].replace(":", ""))[::-1] + bytes.fromhex(n[1].replace(":", ""))[::-1] + W.u16(n[2]) +
                bytes([n[3] | n[4] << 2 | n[5] << 4 | n[6] << 7, n[7] | n[8] << 2, n[9], n[10]]) for n in d["nb"]))
        if d["rt"]:
            out[("rt", i)] = tuple(sorted(W.u16(r[0]) + bytes([r[1] | r[2] << 3 | r[3] << 4 | r[4] << 5 | r[5] << 6]) + W.u16(r[6]) for r in d["rt"]))
        if "rel" in d:
            out[("rel", i)] = tuple(d["rel"])
    for g, name in c["groups"]:
        out[("grp", g)] = name
    for g, k, e in c["members"]:
        out[("gm", g, t.EUI64.convert(c["devs"][k]["ieee"]), e)] = 1
    for b in c["backups"]:
        out[("bk", b[0])] = json.dumps(backup_json(b), sort_keys=True)
    return out, seen


async def run(w, plan):
    from sim import radio as R
    import zigpy.appdb
    import zigpy.config as conf
    import zigpy.exceptions

    cfg = plan["cfg"]
    persist.register_quirks()
    st = ST.attach(w, delay=cfg["delay"])
    want, seen = expected(R, cfg)
    src = f"{w.scratch}/src.db"
    build(src, cfg)
    original = ST.dump(src)
    v = cfg["v"]

    async def opened(path):
        app = R.SimApp(R.base_config(**{conf.CONF_DATABASE: path}))
        app.sim_radio = None
        await app._load_db()
        return app

    def compare(app, what):
        got = persist.content(app)
        for k in list(got):
            if isinstance(got[k], tuple) and got[k] and got[k][0] == "EUI64":
                got[k] = got[k][1]
        if got != want:
            kinds = sorted({k[0] for k in want.keys() | got.keys() if want.get(k) != got.get(k)})
            w.violate("data-changed", f"v{v} {what} ({'+'.join(kinds)}): {persist.show_diff(want, got)}")
        for i, s in seen.items():
            if i in app.devices:
                g = app.devices[i].last_seen
                w.check((g is None) == (s is None) and (s is None or abs(g - s) < 1e-3), "last-seen", lambda: f"v{v} {what}: {i} last seen {g}, was {s}")

    def fresh(name):
        p = f"{w.scratch}/{name}.db"
        ST.copy_db(src, p)
        return p

    # how many steps a clean opening takes
    p = fresh("clean")
    n0 = st.steps
    app = await opened(p)
    total = st.steps - n0
    w.stats["migrations"] += 1
    compare(app, "opened without faults")
    await persist.close_copy(app)
    migrated = ST.dump(p)
    w.check(migrated["user_version"] >= max(v, 13), "version", lambda: f"user_version {migrated['user_version']} after opening v{v}")
    app = await opened(p)
    compare(app, "opened twice")
    await persist.close_copy(app)
    again = ST.dump(p)
    w.check(again == migrated, "reopen-changes", lambda: f"v{v}: tables {[k for k in again if again[k] != migrated.get(k)]} change when opened again")
    mode = cfg["mode"]
    w.log("mode", v, mode, total)
    if mode == "fault":
        for h in range(cfg["hits"]):
            p = fresh(f"f{h}")
            at = 1 + int(w.dec.uniform("at", 0, total - 1e-6)) if not cfg["final"] else max(1, total - 40 - int(w.dec.uniform("at", 0, 5)))
            how = ("skip", "rollback", "done")[w.dec.pick("how", 3)]
            n0 = st.steps
            hit = []

            def inject(kind, sql, n):
                if n - n0 != at or kind in ("close",):
                    return None
                hit.append((kind, " ".join(sql.split())[:50]))
                w.stats["fault_stmt"] += 1
                return how, sqlite3.OperationalError("disk I/O error")

            st.inject = inject
            failed = None
            try:
                app = await opened(p)
            except Exception as e:  # noqa: BLE001
                failed = e
                w.stats["failed_opens"] += 1
            st.inject = None
            what = f"step {at}/{total} {hit} fails ({how}): {failed!r}"
            w.state(v, hit[0][0] if hit else None, how, failed is not None)
            if failed is None:
                compare(app, what)
                await persist.close_copy(app)
            else:
                for c in st.leaked():
                    w.log("leaked", at)
                    c._connection.close()
                    c._connection = None
                d = ST.dump(p)
                w.check(d in (original, migrated), "half-migrated", lambda: f"v{v}: {what}; changed tables: "
                        f"{[k for k in d if d[k] != original.get(k)]}"[:800])
                app = await opened(p)
                w.stats["retries"] += 1
                compare(app, "retried after " + what)
                await persist.close_copy(app)
    elif mode == "crash":
        p = fresh("c")
        n0 = st.steps
        points = sorted({1 + int(w.dec.uniform("at", 0, total - 1e-6)) for _ in range(cfg["imgs"])})
        images = []

        def on_step(n, kind, sql, phase, conn):
            if n - n0 in points and kind not in ("connect",):
                q = f"{w.scratch}/i{len(images)}.db"
                ST.copy_db(p, q)
                what = f"killed {phase} step {n - n0}/{total} ({kind} {' '.join(sql.split())[:50]})"
                if phase == "after" and ST.wal_size(q) and w.dec.chance("power", 0.5):
                    keep = int(w.dec.uniform("keep", 0, ST.wal_size(q)))
                    ST.power_loss(q, keep)
                    w.stats["fault_power_loss"] += 1
                    what += f", log cut at {keep}"
                else:
                    w.stats["fault_kill"] += 1
                images.append((q, what))

        st.on_step = on_step
        app = await opened(p)
        compare(app, "before crash")
        st.on_step = None
        await persist.close_copy(app)
        for q, what in images:
            w.stats["images"] += 1
            w.state(v, what.split("(")[1][:30])
            d = ST.dump(q)
            w.check(d in (original, migrated), "half-migrated", lambda: f"v{v}: {what}; changed tables: "
                    f"{[k for k in d if d[k] != original.get(k)]}"[:800])
            try:
                app = await opened(q)
            except Exception as e:  # noqa: BLE001
                w.violate("not-loadable", f"v{v}: {what}: {e!r}")
                continue
            compare(app, "after being " + what)
            await persist.close_copy(app)
    elif mode == "newer":
        p = f"{w.scratch}/clean.db"
        con = sqlite3.connect(p)
        uv = zigpy.appdb.DB_VERSION + 1 + w.dec.pick("nv", 3)
        con.execute(f"CREATE TABLE devices_v{uv} (ieee ieee NOT NULL, nwk INTEGER NOT NULL, status INTEGER NOT NULL, last_seen REAL NOT NULL, x)")
        con.execute(f"INSERT INTO devices_v{uv} VALUES ('00:00:00:00:00:00:00:09', 1, 2, 0, 5)")
        con.execute(f"PRAGMA user_version = {uv}")
        con.commit()
        con.close()
        before = ST.dump(p)
        w.stats["newer"] += 1
        try:
            app = await opened(p)
            await persist.close_copy(app)
        except Exception as e:  # noqa: BLE001
            w.log("newer-error", repr(e)[:80])
            for c in st.leaked():
                c._connection.close()
                c._connection = None
        d = ST.dump(p)
        w.check(d == before, "newer-modified", lambda: f"opening a v{uv} database changed {[k for k in set(d) | set(before) if d.get(k) != before.get(k)]}")
    elif mode == "inconsistent":
        p = fresh("bad") if v >= 4 else f"{w.scratch}/clean.db"
        uv = cfg["uv"]
        tv = v if v >= 4 else zigpy.appdb.DB_VERSION
        if uv == tv:
            uv += 1
        con = sqlite3.connect(p)
        con.execute(f"PRAGMA user_version = {uv}")
        con.commit()
        con.close()
        before = ST.dump(p)
        w.stats["refused"] += 1
        w.state(tv, uv, "inconsistent")
        try:
            app = await opened(p)
        except zigpy.exceptions.CorruptDatabase:
            pass
        except Exception as e:  # noqa: BLE001
            w.violate("not-refused", f"tables v{tv}, user_version {uv}: {e!r} instead of CorruptDatabase")
        else:
            w.violate("not-refused", f"tables v{tv}, user_version {uv}: opened")
            await persist.close_copy(app)
        d = ST.dump(p)
        w.check(d == before, "refused-but-modified", lambda: f"tables v{tv}, user_version {uv}: changed "
                f"{[k for k in set(d) | set(before) if d.get(k) != before.get(k)]}")
    w.sample = {"version": v, "mode": mode, "steps": total, "devices": len(cfg["content"]["devs"])}


PARTS = [Part("migrate", 1, generate, run, max_steps=400_000)]
