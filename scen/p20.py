"""P20: the attribute cache holds the last value the device gave."""
import asyncio
import contextvars
import struct

from scen import common
from sim import wire as W
from sim.core import HarnessError
from sim.runner import Part

PROPERTY = "P20"
LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 400000}
BATCH = 60
REAL = ["zigpy.zcl.Cluster attribute reads, writes, reports, configure reporting and cache", "ZCL frame codec", "zigpy.device request matching", "zigpy.endpoint dispatch"]
STUBS = ["radio and devices with attribute tables", "clock and scheduler"]
RULE = ("a run = 1..2 devices, 9 server and client clusters each, and 8..60 operations (reads by name or id, cached and cache-only reads, writes, undivided writes, "
        "configure reporting, reports, repeated reports, values set or cleared locally, cancelled calls, devices offline) with partial failures, omitted and extra records, "
        "refusals by Default Response, mismatched data types, losses, duplicates, late answers; distinct = distinct sequence of packets and cache events")
STATES = "(cached, unsupported, requests in flight, kind of action) at each change"
PROBES = ["answers", "late", "timeouts", "cancelled", "reports", "dup_reports", "mismatch", "default_rsp", "unsup_set", "unsup_cleared", "partial_write", "undivided",
          "cached_reads", "only_cache", "concurrent", "extra_rec", "omitted", "local", "rejected", "client_side"]
ASSUMPTIONS = ["an answer arriving within 50 ms of its timeout may or may not count", "updates processed at one instant may be applied in either order",
               "a report or write of an attribute marked unsupported may or may not clear the mark"]

CUR = contextvars.ContextVar("op", default=None)

# (endpoint, server side, cluster) -> {attribute: data type}
DEFS = [
    ((1, True, 0), {0x0001: 0x20, 0x0010: 0x42, 0x0012: 0x10, 0x0008: 0x30, 0x4000: 0x42}),
    ((1, True, 6), {0: 0x10, 0x4001: 0x21, 0x4002: 0x21, 0x4003: 0x30, 0x7001: 0x23, 0xF000: 0x42}),
    ((1, True, 0x402), {0: 0x29, 1: 0x29, 3: 0x21}),
    ((1, True, 0x300), {7: 0x21, 8: 0x30, 0x400A: 0x19}),
    ((1, True, 0x0C), {0x55: 0x39, 0x1C: 0x42, 0x6F: 0x18}),
    ((1, True, 0xFC7F), {0: 0x21, 1: 0x41, 2: 0x42}),
    ((1, False, 0x0A), {0: 0xE2, 2: 0x2B}),
    ((2, True, 6), {0: 0x10, 0x4001: 0x21, 0x7001: 0x23}),
    ((2, False, 6), {0: 0x10, 0x4002: 0x21}),
]
SIZE = {0x10: 1, 0x18: 1, 0x19: 2, 0x20: 1, 0x21: 2, 0x23: 4, 0x29: 2, 0x2B: 4, 0x30: 1, 0xE2: 4}
SIGNED = (0x29, 0x2B)
UNSUP = 0x86


def value(ty, n):
    """(python value, raw bytes) of the n-th value of a type."""
    if ty == 0x10:
        v = n % 2
    elif ty in (0x42, 0x41):
        s = f"v{n}"
        return (s if ty == 0x42 else s.encode()), W.lvstr(s)
    elif ty == 0x39:
        return n * 0.25, struct.pack("<f", n * 0.25)
    else:
        bits = 8 * SIZE[ty]
        v = (n * 7919 + 11) % (1 << bits)
        if ty in SIGNED:
            v -= 1 << (bits - 1)
    return v, v.to_bytes(SIZE[ty], "little", signed=ty in SIGNED)


def odd(ty, n):
    """A value of another data type than the attribute's: (type, value, raw)."""
    if ty in (0x42, 0x41):
        return ty, *value(ty, n)
    t2 = [0x23, 0x2B, 0x20, 0x42][n % 4]
    if ty == 0x39:
        t2 = 0x42
    return t2, *value(t2, n)


def generate(rng, tier):
    nd = rng.choice([1, 1, 2])
    net = common.net(rng)
    for k in ("early_rsp", "send_err_delivered", "send_timeout"):
        net["rates"].pop(k, None)
    ops = []
    focus = rng.sample(range(len(DEFS)), rng.choice([1, 2, 3, len(DEFS)]))
    nonce = 0
    for _ in range(rng.choice([8, 16, 30, 60])):
        k = rng.choice(["read"] * 6 + ["cread", "cread", "oread"] + ["write"] * 4 + ["uwrite", "setitem", "raww"] + ["conf"] * 3 + ["report"] * 6
                       + ["again", "again", "local", "local", "mark", "cancel", "cancel", "offline", "settle", "settle", "badwrite"])
        c = rng.choice(focus)
        attrs = sorted(DEFS[c][1])
        sel = rng.sample(attrs, rng.randint(1, min(len(attrs), rng.choice([1, 2, 5]))))
        nonce += 1
        op = {"op": k, "d": rng.randrange(nd), "c": c, "a": sel, "n": nonce * 8, "dt": rng.choice([0, 0, 0, 0, 0.5, 0.5, 2, 6, 30])}
        if k in ("read", "cread", "oread", "write", "uwrite", "conf", "mark", "setitem"):
            op["names"] = [rng.random() < 0.5 for _ in sel]
        if k in ("read", "cread", "write", "uwrite", "setitem", "raww", "conf"):
            how = rng.choice(["ok"] * 5 + ["part"] * 4 + ["default"] * 2 + ["none"])
            per = {}
            if how == "part":
                for a in sel:
                    if rng.random() < 0.6:
                        per[str(a)] = rng.choice([UNSUP, UNSUP, UNSUP, 0x01, 0x7E, 0x87, 0x88, 0x8C, "omit", "odd"])
            op["ans"] = {"how": how, "st": rng.choice([0x01, 0x81, 0x82, 0x86, 0x7E, 0xC3]), "per": per}
            if k in ("read", "cread") and rng.random() < 0.15:
                op["ans"]["extra"] = rng.choice(attrs)
            if rng.random() < 0.15:
                op["manuf"] = 0x1234
        if k == "report":
            op["odd"] = [rng.random() < 0.15 for _ in sel]
            op["dr"] = rng.random() < 0.3
        if k == "again":
            op["gap"] = rng.choice([0.3, 3, 11, 25])
        if k == "local":
            op["clear"] = rng.random() < 0.4
        if k == "mark":
            op["add"] = rng.random() < 0.5
        if k == "offline":
            op["for"] = rng.choice([3, 12])
        if k == "conf":
            op["rep"] = [rng.choice([0, 1, 30]), rng.choice([60, 900, 0xFFFF]), rng.choice([0, 1, 5])]
        ops.append(op)
    return {"cfg": {"nd": nd, "net": net, "logical": rng.choice([1, 1, 2])}, "ops": ops}


def parse_records(f):
    """A read/report/write/config request's records as the wire has them."""
    b = W.Buf(f.payload)
    out = []
    while b.left:
        if f.cmd == W.READ:
            out.append(b.u16())
        elif f.cmd in (W.WRITE, W.WRITE_UNDIV):
            a, ty = b.u16(), b.u8()
            out.append((a, ty, W.take_value(b, ty)))
        else:
            d, a, ty, lo, hi = b.u8(), b.u16(), b.u8(), b.u16(), b.u16()
            ch = b.take(W.FIXED[ty]) if ty in (0x20, 0x21, 0x23, 0x29, 0x2B, 0x39, 0xE2, 0x25) else b""
            out.append((d, a, ty, lo, hi, ch))
    return out


async def run(w, plan):
    from sim import radio as R
    from zigpy.zcl import foundation
    t = R.t

    cfg = plan["cfg"]
    radio = R.SimRadio(w, cfg["net"])
    app = await R.start_app(w, radio, R.base_config())
    spec = {"logical": cfg["logical"], "mac_caps": 0x80 if cfg["logical"] == 2 else 0x8E, "eps": {
        "1": {"ins": [0, 6, 0x402, 0x300, 0x0C, 0xFC7F], "outs": [0x0A]}, "2": {"ins": [6], "outs": [6]}}}
    spec["eps"]["2"]["ins"] = [6]
    sims, devs = [], []
    for i in range(cfg["nd"]):
        sims.append(radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), spec, f"d{i}")))
        devs.append(common.ready_device(app, sims[-1], R))

    def cluster(key):
        d, (ep, server, cl) = key
        e = devs[d].endpoints[ep]
        return (e.in_clusters if server else e.out_clusters)[cl]

    keys = [(d, k) for d in range(cfg["nd"]) for k, _ in DEFS]
    types = {(d, k): a for d in range(cfg["nd"]) for k, a in DEFS}
    model = {k: {} for k in keys}
    unsup = {k: set() for k in keys}
    acts, evs = [], []  # of this instant
    tasks = {}
    st = {"adopt": False, "last": {}}

    class L:
        def __init__(self, key):
            self.key = key

        def attribute_updated(self, a, v, ts):
            evs.append((self.key, int(a), "upd", v))
            w.log("upd", self.key[0], self.key[1], int(a), repr(v))
            w.check(abs((ts - w.wall()).total_seconds()) < 1e-3, "update-time", lambda: f"{ts} at {w.wall()}")

        def attribute_cleared(self, a):
            evs.append((self.key, int(a), "clr", None))
            w.log("clr", self.key[0], self.key[1], int(a))

        def unsupported_attribute_added(self, a):
            evs.append((self.key, int(a), "unsup", None))

        def unsupported_attribute_removed(self, a):
            evs.append((self.key, int(a), "sup", None))

    for k in keys:
        cluster(k).add_listener(L(k))

    def peek(key, attrs):
        """A cache-only read: it must not need to wait for anything."""
        coro = cluster(key).read_attributes(list(attrs), only_cache=True)
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value
        coro.close()
        w.violate("only-cache-waits", "a cache only read did not return at once")
        return {}, {}

    def same(key, a, got, want, typed=True):
        ok = got == want and isinstance(got, str) == isinstance(want, str) and isinstance(got, bytes) == isinstance(want, bytes)
        ad = cluster(key).attributes.get(a)
        if ok and typed and ad is not None:
            try:
                conv = ad.type(want)
            except (TypeError, ValueError, KeyError):
                return ok
            ok = type(got) is type(conv)
        return ok

    def quiet():
        if not acts and not evs:
            return
        A, E = acts[:], evs[:]
        acts.clear()
        evs.clear()
        adopt, st["adopt"] = st["adopt"], False
        touched = {(k, a) for k, a, *_ in [*A, *E]}
        for key, a in sorted(touched, key=repr):
            wants = [x for x in A if x[0] == key and x[1] == a]
            gots = [x for x in E if x[0] == key and x[1] == a]
            up_w = [x for x in wants if x[2] in ("upd", "clr")]
            up_g = [x for x in gots if x[2] in ("upd", "clr")]
            if not adopt:
                rest = up_w[:]
                for g in up_g:
                    m = next((x for x in rest if x[2] == g[2] and (g[2] == "clr" or same(key, a, g[3], x[3], len(x) == 4))), None)
                    if m is None:
                        w.violate("update-event", f"{key} attribute {a:#06x}: announced {g[2:]}, expected {[x[2:] for x in up_w]}")
                    else:
                        rest.remove(m)
                # clearing what is not there is not announced
                rest = [x for x in rest if x[2] != "clr"]
                w.check(not rest, "update-missing", lambda: f"{key} attribute {a:#06x}: nothing announced for {[x[2:] for x in rest]}")
            if up_g:
                if up_g[-1][2] == "upd":
                    model[key][a] = up_g[-1][3]
                else:
                    model[key].pop(a, None)
            was = a in unsup[key]
            u = {x[2] for x in wants if x[2] in ("unsup", "sup", "maybe")}
            now_u = a in cluster(key).unsupported_attributes
            ue = [x[2] for x in gots if x[2] in ("unsup", "sup")]
            if not adopt and "maybe" not in u and len(u) < 2:
                want_u = was if not u else u == {"unsup"}
                w.check(now_u == want_u, "unsupported", lambda: f"{key} attribute {a:#06x} is{'' if now_u else ' not'} marked unsupported, {u} {was}")
                w.check(ue == ([] if was == want_u else ["unsup" if want_u else "sup"]), "unsupported-event", lambda: f"{key} {a:#06x}: {ue} from {was} to {want_u}")
            if was != now_u:
                w.stats["unsup_set" if now_u else "unsup_cleared"] += 1
            (unsup[key].add if now_u else unsup[key].discard)(a)
            w.state(len(model[key]), len(unsup[key]), len(tasks), sorted({x[2] for x in wants}))
        compare()

    def compare():
        for key in keys:
            ids = list(types[key])
            ok, bad = peek(key, ids)
            cl = cluster(key)
            for a in ids:
                if a in model[key]:
                    w.check(a in ok and ok[a] == model[key][a] and type(ok[a]) is type(model[key][a]), "cache",
                            lambda: f"{key} attribute {a:#06x} is {ok.get(a)!r}, was last given {model[key][a]!r}")
                    if a in cl.attributes:
                        w.check(cl.get(a) == model[key][a] and cl[cl.attributes[a].name] == model[key][a], "get", lambda: f"{key} {a:#06x}")
                else:
                    w.check(a not in ok, "cache-invented", lambda: f"{key} attribute {a:#06x} is cached as {ok.get(a)!r}")
                    w.check((a in bad) == (a in unsup[key]) and bad.get(a, UNSUP) == UNSUP, "cached-failure", lambda: f"{key} {a:#06x}: {bad}")
                    if a in cl.attributes:
                        w.check(cl.get(a, "dflt") == "dflt", "get", lambda: f"{key} {a:#06x}")
                w.check((a in cl.unsupported_attributes) == (a in unsup[key]), "unsupported", lambda: f"{key} {a:#06x}")
                if a in cl.attributes:
                    w.check((cl.attributes[a].name in cl.unsupported_attributes) == (a in unsup[key]), "unsupported-name", lambda: f"{key} {a:#06x}")
        w.check(radio.sending >= 0, "x", "")

    # ---- the device side
    def dev_hook(tx, f, e, d):
        info = tx.tag
        if info is None or f.cluster_specific or f.cmd not in (W.READ, W.WRITE, W.WRITE_UNDIV, W.CONF_REP):
            return f.cmd == W.DEFAULT_RSP
        op, ans = info["op"], info["op"]["ans"]
        how, per = ans["how"], ans["per"]
        if how == "none":
            return True
        if how == "default":
            d.zcl_reply(tx, f, W.DEFAULT_RSP, bytes([f.cmd, ans["st"]]))
            return True
        ty = types[info["key"]]
        if f.cmd == W.READ:
            out = b""
            recs = parse_records(f)
            if ans.get("extra") is not None and ans["extra"] not in op["a"]:
                recs = [ans["extra"], *recs]
                w.stats["extra_rec"] += 1
            for i, a in enumerate(recs):
                p = per.get(str(a))
                if p == "omit" and len(recs) > 1:
                    w.stats["omitted"] += 1
                elif p == "odd":
                    t2, _, raw = odd(ty[a], op["n"] + i)
                    w.stats["mismatch"] += 1
                    out += W.u16(a) + b"\0" + W.u8(t2) + raw
                elif isinstance(p, int):
                    out += W.u16(a) + W.u8(p)
                else:
                    out += W.u16(a) + b"\0" + W.u8(ty[a]) + value(ty[a], op["n"] + i)[1]
            d.zcl_reply(tx, f, W.READ_RSP, out or W.u16(0xEEEE) + W.u8(UNSUP))
        elif f.cmd == W.CONF_REP:
            bad = [(per[str(r[1])], r[1]) for r in parse_records(f) if isinstance(per.get(str(r[1])), int)]
            d.zcl_reply(tx, f, W.CONF_REP_RSP, b"".join(W.u8(s) + b"\0" + W.u16(a) for s, a in bad) or b"\0")
        else:
            bad = [(per[str(r[0])], r[0]) for r in parse_records(f) if isinstance(per.get(str(r[0])), int)]
            d.zcl_reply(tx, f, W.WRITE_RSP, b"".join(W.u8(s) + W.u16(a) for s, a in bad) or b"\0")
        return True

    for d in sims:
        d.zcl_hook = lambda tx, f, e, d=d: dev_hook(tx, f, e, d)

    # ---- traffic
    def on_tx(tx):
        if not tx.dst_ep or tx.dst_mode != t.AddrMode.NWK:
            return
        f = W.Zcl.parse(tx.data)
        info = CUR.get()
        if f.cluster_specific or f.cmd not in (W.READ, W.WRITE, W.WRITE_UNDIV, W.CONF_REP):
            return
        if info is None:
            w.violate("request-invented", f"{tx.data.hex()} to cluster {int(tx.cluster):#06x} was not asked for")
            return
        tx.tag = info
        op, key = info["op"], info["key"]
        w.check(int(tx.cluster) == key[1][2] and tx.dst_ep == key[1][0] and int(tx.dst) == sims[key[0]].nwk and f.s2c == (not key[1][1]) and f.manuf == op.get("manuf"),
                "request-header", lambda: f"{tx.data.hex()} for {key}")
        info["txs"] += 1
        w.check(info["txs"] == 1, "request-repeated", lambda: f"{info['txs']} requests for one call")
        recs = parse_records(f)
        cmd = {"read": W.READ, "cread": W.READ, "uwrite": W.WRITE_UNDIV, "conf": W.CONF_REP}.get(op["op"], W.WRITE)
        want = info["want"]
        w.check(f.cmd == cmd and recs == want, "request-content", lambda: f"sent {recs} instead of {want}")
        info["sent"] = recs

    def on_rx(rx):
        f = W.Zcl.parse(rx.data) if rx.dst_ep else None
        if rx.req is None or f is None:
            if f is not None and f.cmd == W.REPORT and not f.cluster_specific:
                report_in(rx, f)
            return
        info = rx.req.tag
        if info is None:
            return
        tx = rx.req
        if info["done"] or info["answer"] is not None or tx.outcome in ("failed", "cancelled", "no-route"):
            w.stats["late"] += 1
            return
        if tx.t1 is not None:
            left = tx.t1 + (28 if tx.extended else 5) - w.now
            if abs(left) < 0.05:
                info["adopt"] = st["adopt"] = True
            elif left < 0:
                w.stats["late"] += 1
                return
        w.stats["answers"] += 1
        op, key = info["op"], info["key"]
        b = W.Buf(f.payload)
        if f.cmd == W.DEFAULT_RSP:
            b.u8()
            info["answer"] = ("default", b.u8())
            w.stats["default_rsp"] += 1
        elif f.cmd == W.READ_RSP:
            recs = {}
            while b.left:
                a, s = b.u16(), b.u8()
                if s == 0:
                    ty = b.u8()
                    v = W.decode(ty, W.take_value(b, ty))
                    recs[a] = (0, v)
                else:
                    recs[a] = (s, None)
                if a in info["sent"]:
                    if s == 0:
                        acts.append((key, a, "upd", v))
                        acts.append((key, a, "sup", None))
                    elif s == UNSUP:
                        acts.append((key, a, "unsup", None))
            info["answer"] = ("read", recs)
        elif f.cmd == W.WRITE_RSP:
            bad = {}
            if b.u8() != 0:
                b.p = 0
                while b.left:
                    s = b.u8()
                    bad[b.u16()] = s
            info["answer"] = ("write", bad)
            if bad:
                w.stats["partial_write"] += 1
            if op["op"] == "uwrite":
                w.stats["undivided"] += 1
            for a, v in info["values"]:
                if a in unsup[key]:
                    acts.append((key, a, "maybe", None))
                if a not in bad and not (bad and op["op"] == "uwrite"):
                    acts.append((key, a, "upd", v, *(["raw"] if op["op"] == "raww" else [])))
        else:
            bad = {}
            if b.u8() != 0:
                b.p = 0
                while b.left:
                    s = b.u8()
                    b.u8()
                    bad[b.u16()] = s
            info["answer"] = ("conf", bad)
            for a in op["a"]:
                if not bad:
                    acts.append((key, a, "sup", None))
                elif bad.get(a) == UNSUP:
                    acts.append((key, a, "unsup", None))
                elif a not in bad:
                    acts.append((key, a, "maybe", None))

    seen = {}

    def report_in(rx, f):
        ident = (rx.src_nwk, rx.src_ep, rx.cluster, rx.data)
        if w.now - seen.get(ident, -1e9) < 10:
            w.stats["dup_reports"] += 1
            return
        seen[ident] = w.now
        w.stats["reports"] += 1
        d = sims.index(rx.dev)
        key = next(k for k in keys if k[0] == d and k[1][0] == rx.src_ep and k[1][2] == rx.cluster)
        b = W.Buf(f.payload)
        while b.left:
            a, ty = b.u16(), b.u8()
            acts.append((key, a, "upd", W.decode(ty, W.take_value(b, ty))))
            acts.append((key, a, "maybe", None))

    radio.on_tx.append(on_tx)
    radio.on_rx.append(on_rx)
    w.on_quiet = quiet

    async def settle():
        await asyncio.sleep(3.1037)
        for _ in range(400):
            if not tasks:
                break
            await asyncio.sleep(1.0037)
        else:
            w.violate("call-never-ends", str([i["op"] for i in tasks.values()]))
        await asyncio.sleep(1.0037)

    def judge(info, err, res):
        op, key, ans = info["op"], info["key"], info["answer"]
        what = f"{op['op']} of {key} {op['a']}"
        if err is not None:
            w.stats["timeouts"] += 1
            w.check(ans is None or info.get("adopt"), "error-though-answered", lambda: f"{what} raised {err!r} although answered {ans}")
            return
        if op["op"] in ("read", "cread"):
            ok, bad = res
            want_ok, want_bad = {}, {}
            for a, name in info["asked"]:
                if a in info["cached"]:
                    want_ok[name] = info["cached"][a]
                elif a in info["cached_unsup"]:
                    want_bad[name] = UNSUP
                elif ans is None:
                    w.violate("answer-invented", f"{what} returned {res!r} unanswered")
                elif ans[0] == "default":
                    want_bad[name] = ans[1]
                elif a in ans[1]:
                    s, v = ans[1][a]
                    if s == 0:
                        want_ok[name] = v
                    else:
                        want_bad[name] = s
            ids = {n: a for a, n in info["asked"]}
            w.check(set(ok) == set(want_ok) and all(same(key, ids[x], ok[x], want_ok[x], ids[x] not in info["cached"]) for x in ok)
                    and {x: int(y) for x, y in bad.items()} == want_bad, "read-result", lambda: f"{what} returned {res!r}, expected {want_ok} {want_bad}")
            return
        if op["op"] == "setitem":
            return
        w.check(ans is not None, "answer-invented", lambda: f"{what} returned {res!r} unanswered")
        if ans is not None:
            if ans[0] == "default":
                w.check(not isinstance(res[0], list) and int(res[1]) == ans[1], "write-result", lambda: f"{what} returned {res!r} for {ans}")
            else:
                got = {int(r.attrid): int(r.status) for r in res[0] if r.status != 0}
                w.check(got == ans[1], "write-result", lambda: f"{what} returned {res!r} for {ans}")

    n_op = 0
    for op in plan["ops"]:
        n_op += 1
        await asyncio.sleep(op["dt"] + 0.0001 * n_op)
        k = op["op"]
        key = (op["d"], DEFS[op["c"]][0])
        cl, d, dev = cluster(key), sims[op["d"]], devs[op["d"]]
        ty = types[key]
        w.log("op", k, key[0], key[1], op["a"])
        if k in ("read", "cread", "oread", "write", "uwrite", "raww", "setitem", "conf"):
            attrs = op["a"]
            if k in ("write", "uwrite", "setitem", "conf"):
                attrs = [a for a in attrs if a in cl.attributes]
                if k == "setitem":
                    attrs = attrs[:1]
                if not attrs:
                    continue
            op = {**op, "a": attrs}
            named = [(a, cl.attributes[a].name if a in cl.attributes and op.get("names") and op["names"][i] else a) for i, a in enumerate(attrs)]
            info = {"op": op, "key": key, "asked": named, "answer": None, "done": False, "txs": 0, "cached": {}, "cached_unsup": set()}
            if not key[1][1]:
                w.stats["client_side"] += 1
            if k in ("cread", "oread"):
                info["cached"] = {a: model[key][a] for a in attrs if a in model[key]}
                info["cached_unsup"] = {a for a in attrs if a in unsup[key] and a not in info["cached"]}
            if k == "oread":
                w.stats["only_cache"] += 1
                ok, bad = peek(key, [n for _, n in named])
                w.check(ok == {n: info["cached"][a] for a, n in named if a in info["cached"]} and bad == {n: UNSUP for a, n in named if a in info["cached_unsup"]},
                        "only-cache-result", lambda: f"{ok} {bad}")
                continue
            kw = {"manufacturer": op["manuf"]} if op.get("manuf") and k != "setitem" else {}
            if k == "setitem":
                op.pop("manuf", None)
            if k in ("read", "cread"):
                info["want"] = [a for a in attrs if a not in info["cached"] and a not in info["cached_unsup"]]
                info["values"] = []
                if k == "cread":
                    w.stats["cached_reads"] += 1
                call = lambda: cl.read_attributes([n for _, n in named], **({"allow_cache": True} if k == "cread" else {}), **kw)  # noqa: E731,B023
            elif k == "conf":
                r = op["rep"]
                info["values"] = []
                info["want"] = [(0, a, ty[a], r[0], r[1], (struct.pack("<f", r[2]) if ty[a] == 0x39 else r[2].to_bytes(SIZE[ty[a]], "little"))
                                 if ty[a] in (0x20, 0x21, 0x23, 0x29, 0x2B, 0x39, 0xE2) else b"") for a in attrs]
                if len(attrs) == 1 and op["n"] % 16:
                    call = lambda: cl.configure_reporting(named[0][1], *r, **kw)  # noqa: E731,B023
                else:
                    call = lambda: cl.configure_reporting_multiple({n: tuple(r) for _, n in named}, **kw)  # noqa: E731,B023
            else:
                vals = [(a, *value(ty[a], op["n"] + i)) for i, a in enumerate(attrs)]
                info["values"] = [(a, v) for a, v, _ in vals]
                info["want"] = [(a, ty[a], raw) for a, _, raw in vals]
                if k == "raww":
                    recs = []
                    for a, _, raw in vals:
                        pt = foundation.DataType.from_type_id(ty[a]).python_type
                        recs.append(foundation.Attribute(t.uint16_t(a), foundation.TypeValue(type=ty[a], value=pt.deserialize(raw)[0])))
                    call = lambda: cl.write_attributes_raw(recs, **kw)  # noqa: E731,B023
                else:
                    arg = {n: v for (_, n), (_, v) in zip(named, info["values"])}
                    fn = cl.write_attributes_undivided if k == "uwrite" else cl.write_attributes
                    call = lambda: fn(arg, **kw)  # noqa: E731,B023

            async def go(info=info, call=call):
                CUR.set(info)
                err = res = None
                try:
                    res = await call()
                except Exception as ex:  # noqa: BLE001
                    err = ex
                info["done"] = True
                judge(info, err, res)

            if tasks:
                w.stats["concurrent"] += 1
            if k == "setitem":
                tok = CUR.set(info)
                cl[named[0][1]] = info["values"][0][1]
                CUR.reset(tok)
                continue
            task = asyncio.create_task(go())
            tasks[task] = info
            task.add_done_callback(lambda tk: tasks.pop(tk, None))
        elif k == "badwrite":
            a = next((a for a in op["a"] if a in cl.attributes and ty[a] in (0x20, 0x21, 0x29)), None)
            n0 = len(radio.txs)
            good = next((x for x in sorted(ty) if x in cl.attributes and x != a), None)
            if a is None or good is None:
                continue
            w.stats["rejected"] += 1
            for arg, exc in (({good: value(ty[good], op["n"])[0], a: 1 << 20}, ValueError), ({"no_such_attribute": 1}, KeyError)):
                try:
                    await cl.write_attributes(arg)
                    w.violate("bad-write", f"writing {arg} was accepted")
                except exc:
                    pass
            w.check(len(radio.txs) == n0, "bad-write", "something was sent")
        elif k == "cancel":
            live = list(tasks)
            if live:
                task = live[op["n"] % len(live)]
                tasks[task]["done"] = True
                task.cancel()
                w.stats["cancelled"] += 1
        elif k == "report":
            recs = []
            for i, a in enumerate(op["a"]):
                if op["odd"][i]:
                    t2, _, raw = odd(ty[a], op["n"] + i)
                    w.stats["mismatch"] += 1
                    recs.append((a, t2, raw))
                else:
                    recs.append((a, ty[a], value(ty[a], op["n"] + i)[1]))
            if key[1] == (2, False, 6):
                continue  # traffic goes to the server side if there is one
            tsn = d.next_tsn()
            pl = b"".join(W.u16(a) + W.u8(ty_) + raw for a, ty_, raw in recs)
            data = W.Zcl(False, True, tsn, W.REPORT, pl, disable_dr=not op["dr"]).bytes()
            st["last"][op["d"]] = (key, data)
            radio.reply(d, key[1][0], 1, 0x0104, key[1][2], data)
        elif k == "again":
            last = st["last"].get(op["d"])
            if last is not None:
                key2, data = last
                w.loop.call_later(op["gap"] + 0.00007 * n_op, radio.deliver, d, d.nwk, key2[1][0], 1, 0x0104, key2[1][2], data)
        elif k == "local":
            a = op["a"][0]
            w.stats["local"] += 1
            if op["clear"]:
                acts.append((key, a, "clr", None))
                cl.update_attribute(a, None)
            else:
                v = value(ty[a], op["n"])[0]
                if a in cl.attributes:
                    v = cl.attributes[a].type(v)
                acts.append((key, a, "upd", v))
                cl.update_attribute(a, v)
        elif k == "mark":
            a = op["a"][0]
            n = cl.attributes[a].name if a in cl.attributes and op["names"][0] else a
            acts.append((key, a, "unsup" if op["add"] else "sup", None))
            (cl.add_unsupported_attribute if op["add"] else cl.remove_unsupported_attribute)(n)
        elif k == "offline":
            d.online = False
            w.loop.call_later(op["for"] + 0.0177, setattr, d, "online", True)
            w.stats["fault_offline"] += 1
        elif k == "settle":
            await settle()
        else:
            raise HarnessError(k)
    await settle()
    await asyncio.sleep(45)
    w.on_quiet = None
    quiet()
    compare()
    await app.shutdown()
    w.sample = {"cached": {str(k): len(v) for k, v in model.items() if v}, "ops": len(plan["ops"])}


PARTS = [Part("attrs", 1, generate, run, max_steps=400_000)]
