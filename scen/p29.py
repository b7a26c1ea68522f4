"""P29: group, binding and permit commands reach exactly whom they name."""
import asyncio
import contextvars

from scen import common
from sim import wire as W
from sim.runner import Part

PROPERTY = "P29"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 400000}
BATCH = 50
REAL = ["zigpy.group.Group.request, GroupEndpoint, GroupCluster", "zigpy.zcl.Cluster command, attribute and bind methods", "zigpy.zdo bind/unbind/permit and zdo.broadcast",
        "ControllerApplication.permit, permit_with_key, broadcast, request", "zigpy.util.convert_install_code"]
STUBS = ["radio and devices (multicasts, broadcasts and unicasts delivered with loss, delay and errors)", "clock and scheduler"]
RULE = ("a run = 4..40 concurrent operations on 1..3 devices and a few groups: commands and writes to groups by cluster id or name, members added and removed, groups "
        "removed and made again, bind/unbind, opening the network everywhere, at one node or at an unknown one, install codes (valid, damaged, of any length), "
        "cancelled callers; faults on every link and on the radio's own calls; distinct = distinct sequence of transmissions and outcomes")
STATES = "(operation, outcome of its transmission, result) triples"
PROBES = ["group_sent", "group_failed", "by_name", "by_id", "manuf", "writes", "bound", "bind_refused", "permit_all", "permit_ncp", "permit_router", "permit_quiet", "permit_unknown",
          "codes_ok", "codes_bad", "cancelled", "bad_cluster", "executed", "all_failed"]
ASSUMPTIONS = ["an answer within 50 ms of the end of the waiting time may or may not count"]

CUR = contextvars.ContextVar("op", default=None)
E8, E16 = ("u8", 255), ("u16", 65535)
# (cluster, name of the cluster, name of the command, id, arguments)
CMDS = [
    (6, "on_off", "off", 0, []), (6, "on_off", "on", 1, []), (6, "on_off", "toggle", 2, []), (6, "on_off", "on_with_recall_global_scene", 0x41, []),
    (6, "on_off", "on_with_timed_off", 0x42, [("u8", 1), E16, E16]), (8, "level", "move_to_level", 0, [E8, E16]), (8, "level", "move", 1, [("u8", 1), E8]),
    (8, "level", "stop_with_on_off", 7, []), (0x300, "light_color", "move_to_color_temp", 0x0A, [E16, E16]), (0x300, "light_color", "move_to_color", 7, [E16, E16, E16]),
    (5, "scenes", "recall", 5, [E16, E8]), (3, "identify", "identify", 0, [E16]), (0x102, "window_covering", "up_open", 0, []),
    (0x102, "window_covering", "go_to_lift_percentage", 5, [("u8", 100)]), (4, "groups", "remove_all", 4, []),
]
# attributes: (cluster, cluster name, attribute id, name, type, width, max)
ATTRS = [(6, "on_off", 0x4001, "on_time", 0x21, 2, 65535), (8, "level", 0x11, "on_level", 0x20, 1, 255), (3, "identify", 0, "identify_time", 0x21, 2, 65535)]
NOT_CLUSTERS = [0x7777, 0xFFFE, 0xFC99]


def crc_x25(data):
    crc = 0xFFFF
    for x in data:
        crc ^= x
        for _ in range(8):
            crc = (crc >> 1) ^ 0x8408 if crc & 1 else crc >> 1
    return (crc ^ 0xFFFF).to_bytes(2, "little")


def mmo(data):
    """Matyas-Meyer-Oseas hash with AES-128, as the Zigbee specification pads it."""
    from cryptography.hazmat.primitives.ciphers import Cipher
    from cryptography.hazmat.primitives.ciphers.algorithms import AES
    from cryptography.hazmat.primitives.ciphers.modes import ECB

    m = data + b"\x80"
    while len(m) % 16 != 14:
        m += b"\0"
    m += (8 * len(data)).to_bytes(2, "big")
    h = bytes(16)
    for i in range(0, len(m), 16):
        e = Cipher(AES(h), ECB()).encryptor()
        h = bytes(a ^ b for a, b in zip(e.update(m[i:i + 16]) + e.finalize(), m[i:i + 16]))
    return h


def generate(rng, tier):
    n = rng.choice([1, 2, 3])
    devs = []
    for i in range(n):
        lg = rng.choice([1, 1, 2])
        devs.append({"logical": lg, "mac_caps": 0x80 if lg == 2 else 0x8E, "eps": {
            "1": {"ins": [0, 3, 4, 5, 6, 8, 0x300], "outs": [6, 0x19], "groups": rng.sample([1, 2, 3], rng.choice([0, 1, 2]))},
            str(rng.choice([2, 11, 240])): {"ins": [4, 6, 0x102], "outs": [5, 8], "groups": rng.sample([1, 2, 3], rng.choice([0, 1]))}}})
    net = common.net(rng)
    net["api_lat"] = rng.choice([0, 0, 1.0])
    ops = []
    span = rng.choice([0, 2, 20, 90])
    many = rng.choice([300, 40, 40, 40]) if rng.random() < 0.08 else 0
    for i in range(many or rng.choice([4, 8, 16, 40])):
        k = "gcmd" if many and rng.random() < 0.95 else rng.choice(["gcmd"] * 5 + ["gwrite", "bind", "bind", "unbind", "permit", "permit", "permit", "permit", "code", "member", "regroup", "badcluster", "offline"])
        op = {"op": k, "id": i, "at": round(rng.uniform(0, span), 2), "d": rng.randrange(n), "g": rng.choice([1, 1, 2, 3, 0xFFF0]), "e": rng.randrange(2)}
        if many:
            op["g"] = 1
        if k == "gcmd":
            c = rng.randrange(len(CMDS))
            op.update(c=c, args=[rng.choice([0, 1, m, rng.randint(0, m)]) for _, m in CMDS[c][4]], how=rng.choice(["name", "id", "index"]), kw=rng.random() < 0.4,
                      manuf=rng.choice([None, None, None, 0x1234, 0x02FF, 0x0405]))
        elif k == "gwrite":
            op.update(a=rng.randrange(len(ATTRS)), how=rng.choice(["name", "id"]))
            op["v"] = rng.randint(0, ATTRS[op["a"]][6])
        elif k in ("bind", "unbind"):
            op.update(c=rng.randrange(8), out=rng.random() < 0.4, st=rng.choice([0, 0, 0, 0x84, 0x8C, 0x82]))
        elif k == "permit":
            op.update(time=rng.choice([0, 1, 60, 180, 254, rng.randint(0, 254)]), node=rng.choice([None, None, None, "coord", "dev", "dev", "unknown"]),
                      form=rng.choice(["eui", "eui", "list", "bytes"]), st=rng.choice([0, 0, 0x80, 0x8B]), default=rng.random() < 0.15)
            if rng.random() < 0.25:
                op["fail"] = rng.randrange(3)
        elif k == "code":
            body = bytes(rng.randrange(256) for _ in range(rng.choice([6, 8, 12, 16])))
            code = bytearray(body + crc_x25(body))
            how = rng.choice(["ok", "ok", "flip", "swap", "short", "long", "other"])
            if how == "flip":
                code[rng.randrange(len(code))] ^= 1 << rng.randrange(8)
            elif how == "swap":
                code[-2:] = bytes(code[-2:])[::-1]
            elif how == "short":
                del code[rng.randrange(len(code)):]
            elif how == "long":
                code += bytes(rng.choice([1, 2, 4]))
            elif how == "other":
                m = bytes(rng.randrange(256) for _ in range(rng.choice([0, 4, 7, 10, 14, 20])))
                code = bytearray(m + crc_x25(m))
            op.update(code=bytes(code).hex(), time=rng.choice([1, 60, 254]))
        elif k == "offline":
            op["for"] = rng.choice([1, 10, 60])
        if k not in ("member", "regroup", "offline", "badcluster") and rng.random() < 0.08:
            op["cancel"] = rng.choice([0, 0.25, 1, 5])
        ops.append(op)
    return {"cfg": {"net": net, "devs": devs, "maxc": rng.choice([1, 2, 8])}, "ops": ops}


async def run(w, plan):
    import warnings

    from sim import radio as R
    import zigpy.config as conf
    import zigpy.exceptions
    t = R.t

    cfg = plan["cfg"]
    radio = R.SimRadio(w, cfg["net"])
    radio.faults_on = False
    app = await R.start_app(w, radio, R.base_config(**{conf.CONF_MAX_CONCURRENT_REQUESTS: cfg["maxc"]}))
    radio.faults_on = True
    coord = radio.coord
    sims, devs = [], []
    executed = []

    def received(d):
        orig = d.received

        def f(tx, bcast=False):
            if tx.dst_mode == t.AddrMode.Group:
                for e in sorted(d.eps):
                    if int(tx.dst) in d.eps[e]["groups"] and int(tx.cluster) in d.eps[e]["ins"]:
                        executed.append((d.name, e, tx.n))
                        w.stats["executed"] += 1
                return
            heard.setdefault(tx.n, set()).add(d.name)
            orig(tx, bcast)
        return f

    heard = {}
    answered = {}  # tx number -> time its answer was delivered
    for i, s in enumerate(cfg["devs"]):
        d = radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), s, f"d{i}"))
        d.received = received(d)
        sims.append(d)
        devs.append(common.ready_device(app, d, R))
    calls = []  # (operation, kind, details) in order

    def op_id():
        return CUR.get()

    def on_tx(tx):
        tx.tag = op_id()
        calls.append((tx.tag, "tx", tx))

    radio.on_tx.append(on_tx)

    def after_rx(rx):
        if rx.req is not None:
            answered.setdefault(rx.req.n, w.now)

    radio.after_rx.append(after_rx)

    def wrap(name):
        orig = getattr(app, name)

        async def f(*a, **kw):
            calls.append((op_id(), name, (a, kw)))
            await orig(*a, **kw)
        setattr(app, name, f)

    wrap("permit_ncp")
    wrap("permit_with_link_key")
    tsns, kept = {}, []
    groups = {}

    def group(g):
        if g not in app.groups:
            app.groups.add_group(g, f"g{g}")
        return app.groups[g]

    async def call(op):
        """Performs one operation; returns (result, exception)."""
        k = op["op"]
        d, dev = sims[op["d"]], devs[op["d"]]
        if k == "gcmd":
            cid, cname, name, cmd, spec = CMDS[op["c"]]
            op["obj"] = group(op["g"])
            ep = op["obj"].endpoint
            kw = {} if op["manuf"] is None else {"manufacturer": op["manuf"]}
            c = ep[cid] if op["how"] in ("id", "index") else getattr(ep, cname)
            if op["kw"] and op["args"]:
                names = [f.name for f in c.commands_by_name[name].schema.fields][: len(op["args"])]
                args = ()
                kw.update(zip(names, op["args"]))
            else:
                args = op["args"]
            if op["how"] == "index":
                return await c.command(cmd, *args, **kw)
            return await getattr(c, name)(*args, **kw)
        if k == "gwrite":
            cid, cname, aid, aname, *_ = ATTRS[op["a"]]
            op["obj"] = group(op["g"])
            ep = op["obj"].endpoint
            c = ep[cid] if op["how"] == "id" else getattr(ep, cname)
            return await c.write_attributes({aname if op["how"] == "name" else aid: op["v"]})
        if k in ("bind", "unbind"):
            c = cluster(op)
            return await (c.bind() if k == "bind" else c.unbind())
        if k == "permit":
            node = None
            if op["node"]:
                node = R.eui(R.COORD_IEEE if op["node"] == "coord" else d.ieee if op["node"] == "dev" else 0x0BAD00000000 + op["id"])
                if op["form"] == "list":
                    node = [int(x) for x in node]
                elif op["form"] == "bytes":
                    node = bytes(node.serialize())
            args = {} if op["default"] else {"time_s": op["time"]}
            return await app.permit(node=node, **args)
        if k == "code":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return await app.permit_with_key(R.eui(d.ieee), bytes.fromhex(op["code"]), op["time"])

    def cluster(op):
        dev = devs[op["d"]]
        ep = dev.endpoints[sorted(x for x in dev.endpoints if x)[op["e"]]]
        cs = ep.out_clusters if op["out"] else ep.in_clusters
        return cs[sorted(cs)[op["c"] % len(cs)]]

    def check(op, res, exc, cancelled):
        k = op["op"]
        i = op["id"]
        what = f"operation {i} ({k})"
        mine = [c for c in calls if c[0] == i]
        txs = [c[2] for c in mine if c[1] == "tx"]
        keys = [c[2] for c in mine if c[1] == "permit_with_link_key"]
        ncps = [c[2] for c in mine if c[1] == "permit_ncp"]
        d = sims[op["d"]]
        w.check(len(txs) <= 1, "sent-twice", lambda: f"{what} sent {len(txs)} packets")
        tx = txs[0] if txs else None
        w.state(k, tx.outcome if tx else None, type(exc).__name__)
        w.log("done", i, tx.outcome if tx else None, type(exc).__name__)
        if k in ("gcmd", "gwrite"):
            w.check(not ncps and not keys, "group-command", f"{what} opened the network")
            if tx is None:
                w.check(cancelled, "group-command", lambda: f"{what} sent nothing: {exc!r}")
                return
            f = W.Zcl.parse(tx.data)
            if k == "gcmd":
                cid, _, _, cmd, spec = CMDS[op["c"]]
                payload = b"".join(W.u8(v) if ty == "u8" else W.u16(v) for v, (ty, _) in zip(op["args"], spec))
                want = (cid, True, False, cmd, payload, op["manuf"])
                w.stats["by_id" if op["how"] != "name" else "by_name"] += 1
                if op["manuf"] is not None:
                    w.stats["manuf"] += 1
            else:
                cid, _, aid, _, ty, width, _ = ATTRS[op["a"]]
                want = (cid, False, False, cmd := W.WRITE, W.u16(aid) + W.u8(ty) + op["v"].to_bytes(width, "little"), None)
                w.stats["writes"] += 1
            have = (int(tx.cluster), f.cluster_specific, f.s2c, f.cmd, f.payload, f.manuf)
            w.check(have == want, "group-command", lambda: f"{what}: sent {have}, called {want}")
            to = (tx.dst_mode, int(tx.dst), int(tx.profile), int(tx.src_ep))
            w.check(to == (t.AddrMode.Group, op["g"], 0x0104, 1), "group-command", lambda: f"{what}: sent to {to} instead of group {op['g']}")
            kept.append(op["obj"])
            used = tsns.setdefault(id(op["obj"]), [])
            w.check(f.tsn not in used[-200:], "group-sequence", lambda: f"{what}: another command to the same group had the sequence number {f.tsn}")
            used.append(f.tsn)
            w.check(tx.packet is None or tx.packet.tsn == f.tsn, "group-sequence", lambda: f"{what}: packet number {tx.packet.tsn}, frame number {f.tsn}")
            if cancelled:
                return
            if tx.outcome == "sent":
                w.stats["group_sent"] += 1
                w.check(exc is None, "group-command", lambda: f"{what}: the multicast was sent but the call raised {exc!r}")
                r = [int(res[0]), int(res[1])] if exc is None else None
                w.check(exc is not None or r == [cmd, 0], "group-result", lambda: f"{what}: returned {res!r} for command {cmd:#04x}")
            else:
                w.stats["group_failed"] += 1
                w.check(exc is not None and exc is tx.exc, "group-command", lambda: f"{what}: the radio failed with {tx.exc!r} but the call {'returned' if exc is None else 'raised'} {res!r} {exc!r}")
        elif k in ("bind", "unbind"):
            w.check(not ncps and not keys, "binding", f"{what} opened the network")
            if tx is None:
                w.check(cancelled or isinstance(exc, asyncio.TimeoutError), "binding", lambda: f"{what} sent nothing: {exc!r}")
                return
            c = cluster(op)
            payload = W.u64(d.ieee) + W.u8(c.endpoint.endpoint_id) + W.u16(int(c.cluster_id)) + b"\x03" + W.u64(R.COORD_IEEE) + b"\x01"
            have = (tx.dst_mode, int(tx.dst), int(tx.dst_ep), int(tx.src_ep), int(tx.profile), int(tx.cluster), tx.data[1:])
            want = (t.AddrMode.NWK, d.nwk, 0, 0, 0, W.BIND_REQ if k == "bind" else W.UNBIND_REQ, payload)
            w.check(have == want, "binding", lambda: f"{what}: sent {have} instead of {want}")
            unicast(op, what, tx, res, exc, cancelled)
            if exc is None and not cancelled:
                w.check(int(res[0]) == statuses[tx.n], "binding", lambda: f"{what}: returned {res!r}, the device answered {statuses[tx.n]:#04x}")
                w.stats["bound" if not statuses[tx.n] else "bind_refused"] += 1
        elif k == "permit":
            w.check(not keys, "permit", f"{what} set a key")
            secs = 60 if op["default"] else op["time"]
            for a, kw in ncps:
                got = a[0] if a else kw.get("time_s", 60)
                w.check(int(got) == secs, "permit", lambda: f"{what}: the coordinator was opened for {got} s instead of {secs} s")
            if op["node"] is None:
                w.stats["permit_all"] += 1
                if tx is not None:
                    have = (tx.dst_mode, int(tx.dst), int(tx.dst_ep), int(tx.src_ep), int(tx.profile), int(tx.cluster), tx.data[1:])
                    want = (t.AddrMode.Broadcast, 0xFFFC, 0, 0, 0, W.MGMT_PERMIT_REQ, bytes([secs, 0]))
                    w.check(have == want, "permit", lambda: f"{what}: broadcast {have} instead of {want}")
                    w.check(not ncps or mine[0][1] == "tx", "permit", f"{what}: order")
                if cancelled:
                    return
                w.check(tx is not None, "permit", lambda: f"{what}: nothing was broadcast ({exc!r})")
                if tx.outcome == "sent":
                    w.check(len(ncps) == 1, "permit", lambda: f"{what}: the coordinator was opened {len(ncps)} times")
                    w.check((exc is None) == (op.get("failed") is None), "permit", lambda: f"{what}: {exc!r}, the radio {op.get('failed')!r}")
                else:
                    w.stats["all_failed"] += 1
                    w.check(exc is tx.exc, "permit", lambda: f"{what}: the broadcast failed with {tx.exc!r}, the call {exc!r}")
                    w.check(not ncps, "permit", lambda: f"{what}: the coordinator was opened although the broadcast failed with {tx.exc!r}")
            elif op["node"] == "coord":
                w.stats["permit_ncp"] += 1
                w.check(tx is None, "permit", lambda: f"{what}: sent {tx.data.hex()} to {tx.dst}")
                if not cancelled:
                    w.check(len(ncps) == 1, "permit", lambda: f"{what}: the coordinator was opened {len(ncps)} times")
                    w.check((exc is None) == (op.get("failed") is None), "permit", lambda: f"{what}: {exc!r}, the radio {op.get('failed')!r}")
            elif op["node"] == "unknown":
                w.stats["permit_unknown"] += 1
                w.check(tx is None and not ncps and exc is None, "permit", lambda: f"{what}: an unknown node led to {mine} {exc!r}")
            else:
                w.stats["permit_router"] += 1
                w.check(not ncps, "permit", f"{what}: the coordinator was opened as well")
                if tx is None:
                    w.check(cancelled or isinstance(exc, asyncio.TimeoutError), "permit", lambda: f"{what}: nothing was sent ({exc!r})")
                    return
                have = (tx.dst_mode, int(tx.dst), int(tx.dst_ep), int(tx.src_ep), int(tx.profile), int(tx.cluster), tx.data[1:])
                want = (t.AddrMode.NWK, d.nwk, 0, 0, 0, W.MGMT_PERMIT_REQ, bytes([secs, 0]))
                w.check(have == want, "permit", lambda: f"{what}: sent {have} instead of {want}")
                w.check(not isinstance(exc, zigpy.exceptions.DeliveryError), "permit", lambda: f"{what}: raised {exc!r} for an unreachable router")
                if isinstance(tx.exc, zigpy.exceptions.DeliveryError) and not cancelled:
                    w.stats["permit_quiet"] += 1
                    w.check(exc is None, "permit", lambda: f"{what}: {exc!r} for an unreachable router")
                elif not cancelled:
                    unicast(op, what, tx, res, exc, cancelled)
        elif k == "code":
            w.check(tx is None and not ncps, "install-code", f"{what} sent something")
            code = bytes.fromhex(op["code"])
            good = len(code) in (8, 10, 14, 18) and crc_x25(code[:-2]) == code[-2:]
            if not good:
                w.stats["codes_bad"] += 1
                w.check(not keys and isinstance(exc, ValueError), "install-code", lambda: f"{what}: {code.hex()} led to {keys} {exc!r}")
                return
            w.stats["codes_ok"] += 1
            if cancelled and not keys:
                return
            w.check(len(keys) == 1 and (exc is None or cancelled), "install-code", lambda: f"{what}: {code.hex()} led to {keys} {exc!r}")
            a, kw = keys[0]
            kw = {**dict(zip(("node", "link_key", "time_s"), a)), **kw}
            have = (kw["node"], bytes(kw["link_key"]), kw.get("time_s", 60))
            want = (R.eui(d.ieee), mmo(code), op["time"])
            w.check(have == want, "install-code", lambda: f"{what}: {have} instead of {want}")

    def unicast(op, what, tx, res, exc, cancelled):
        """A unicast request returns its answer or fails as the radio did."""
        if cancelled:
            return
        at = answered.get(tx.n)
        if exc is None:
            w.check(at is not None, "no-answer", lambda: f"{what}: returned {res!r} although no answer arrived")
        elif tx.outcome == "failed" or tx.outcome == "no-route":
            w.check(exc is tx.exc or isinstance(exc, (asyncio.TimeoutError, R.Weird, zigpy.exceptions.DeliveryError)), "wrong-error", lambda: f"{what}: {exc!r}, the radio {tx.exc!r}")
        else:
            w.check(isinstance(exc, asyncio.TimeoutError), "wrong-error", lambda: f"{what}: {exc!r}")
            # the answer came too late, or never
            w.check(at is None or at > w.now - 0.05, "answer-lost", lambda: f"{what}: {exc!r} although the answer arrived {w.now - at} s earlier")

    statuses = {}

    def zdo_hook(d):
        def f(tx, tsn, c, b, bcast):
            if c in (W.BIND_REQ, W.UNBIND_REQ, W.MGMT_PERMIT_REQ) and not bcast:
                st = by_id[tx.tag]["st"] if tx.tag in by_id else 0
                statuses[tx.n] = st
                d.rsp(tx, bytes([tsn, st]))
                return True
            return False
        return f

    by_id = {op["id"]: op for op in plan["ops"] if "st" in op}
    for d in sims:
        d.zdo_hook = zdo_hook(d)

    async def one(op):
        await asyncio.sleep(op["at"])
        k = op["op"]
        d = sims[op["d"]]
        if k == "offline":
            d.online = False
            await asyncio.sleep(op["for"])
            d.online = True
            return
        if k == "member":
            ep = devs[op["d"]].endpoints[sorted(d.eps)[op["e"]]]
            g = group(op["g"])
            (g.remove_member if ep.unique_id in g else g.add_member)(ep)
            return
        if k == "regroup":
            app.groups.pop(op["g"], None)
            return
        if k == "badcluster":
            w.stats["bad_cluster"] += 1
            ep = group(op["g"]).endpoint
            n0 = len(radio.txs)
            for bad, exp in ((lambda: ep[NOT_CLUSTERS[op["e"]]], KeyError), (lambda: ep.no_such_cluster, AttributeError)):
                try:
                    got = bad()
                except exp:
                    pass
                else:
                    w.violate("bad-cluster", f"a cluster nobody has was returned: {got!r}")
            w.check(len(radio.txs) == n0, "bad-cluster", "something was sent")
            return
        op = dict(op)
        CUR.set(op["id"])
        res = exc = None
        cancelled = False
        try:
            if k == "permit" and "fail" in op and op["node"] in (None, "coord"):
                res = await failing(op)
            elif "cancel" in op:
                sub = asyncio.ensure_future(call(op))
                done, _ = await asyncio.wait([sub], timeout=op["cancel"])
                if not done:
                    sub.cancel()
                    cancelled = True
                    w.stats["cancelled"] += 1
                    await asyncio.wait([sub])
                    if sub.cancelled():
                        exc = asyncio.CancelledError()
                    else:
                        exc = sub.exception()
                else:
                    res = sub.result()
            else:
                res = await call(op)
        except Exception as e:  # noqa: BLE001
            exc = e
        check(op, res, exc, cancelled)

    async def failing(op):
        """The coordinator itself refuses to open."""
        exc = [zigpy.exceptions.DeliveryError("fail"), asyncio.TimeoutError(), RuntimeError("fail")][op["fail"]]
        orig = app.permit_ncp

        async def bad(*a, **kw):
            if op_id() == op["id"]:
                op["failed"] = exc
                w.stats["fault_permit_ncp"] += 1
                calls.append((op["id"], "permit_ncp", (a, kw)))
                raise exc
            await orig(*a, **kw)

        app.permit_ncp = bad
        return await call(op)

    tasks = [asyncio.create_task(one(op)) for op in plan["ops"]]
    done, pend = await asyncio.wait(tasks, timeout=3000)
    w.check(not pend, "never-ends", lambda: f"{len(pend)} operations still wait")
    for x in tasks:
        if x in done:
            x.result()
    w.sample = {"ops": plan["ops"][:4]}


PARTS = [Part("commands", 1, generate, run, max_steps=300_000)]
