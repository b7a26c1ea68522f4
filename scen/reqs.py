"""Requests of many kinds whose answers carry a nonce chosen by the device, so
that every result can be traced to the packet it came from."""
from __future__ import annotations

import asyncio

from sim import wire as W

# kind -> (cluster, is ZDO, cluster specific)
KINDS = {
    "read": (6, False, False), "reads": (6, False, False), "write": (6, False, False), "confrep": (6, False, False),
    "disc": (6, False, False), "view": (4, False, True), "getmem": (4, False, True), "cmd": (6, False, True),
    "raw": (6, False, False), "lqi": (W.MGMT_LQI_REQ, True, False), "nd": (W.NODE_DESC_REQ, True, False),
    "aep": (W.ACTIVE_EP_REQ, True, False), "leave": (W.MGMT_LEAVE_REQ, True, False),
    "noreply": (6, False, True), "reply": (6, False, True),
}
ONEWAY = ("noreply", "reply")
STATUSES = [0x00, 0x01, 0x80, 0x81, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8B, 0xC0]


def spec(rng, logical):
    return {"logical": logical, "manuf": 0x1234, "mac_caps": 0x80 if logical == 2 else 0x8E, "eps": {
        "1": {"ins": [0, 3, 4, 6], "outs": [6, 0x19]},
        "2": {"ins": [0, 4, 6, 8], "outs": [5], "profile": rng.choice([0x0104, 0xC05E])},
    }}


class Nonces:
    """Installs device behaviour: every answer carries a fresh nonce."""

    def __init__(self, w, radio, malformed):
        self.w, self.radio, self.malformed = w, radio, malformed
        self.n = 0
        self.expect = {}  # reply payload id (tx, data) -> decoded value or None if malformed

    def next(self):
        self.n += 1
        return self.n

    def send(self, dev, tx, src_ep, dst_ep, profile, cluster, data, short, value):
        if self.malformed and self.radio.faults_on and self.w.dec.chance(f"malformed.{dev.name}", self.malformed):
            self.w.stats["fault_malformed_reply"] += 1
            data, value = short, None
        self.expect[(tx.n, data)] = value
        self.radio.reply(dev, src_ep, dst_ep, profile, cluster, data, req=tx)

    def zcl(self, dev, tx, f, e):
        n = self.next()
        cl = int(tx.cluster)
        if f.s2c and tx.tag in ONEWAY:
            return True

        def out(cmd, payload, value, specific=False, cut=1):
            h = W.Zcl(specific, True, f.tsn, cmd, b"").bytes()
            self.send(dev, tx, tx.dst_ep, tx.src_ep, tx.profile, cl, h + payload, h + payload[:cut], value)

        if not f.cluster_specific:
            if f.cmd == W.READ:
                ids = [int.from_bytes(f.payload[i : i + 2], "little") for i in range(0, len(f.payload), 2)]
                if n % 9 == 0:
                    st = STATUSES[1 + n % (len(STATUSES) - 1)]
                    out(W.DEFAULT_RSP, bytes([W.READ, st]), ("default", st))
                    return True
                pl = b"".join(W.u16(a) + b"\0\x23" + W.u32(n * 7919 + i) for i, a in enumerate(ids))
                out(W.READ_RSP, pl, [n * 7919 + i for i in range(len(ids))])
            elif f.cmd == W.WRITE:
                out(W.WRITE_RSP, bytes([0x86]) + W.u16(n), n, cut=2)
            elif f.cmd == W.CONF_REP:
                out(W.CONF_REP_RSP, bytes([0x86, 0]) + W.u16(n), n, cut=3)
            elif f.cmd == W.DISC:
                out(W.DISC_RSP, bytes([1]) + W.u16(n) + b"\x20", n, cut=2)
            else:
                return False
        elif cl == 4 and f.cmd == 1:
            out(1, b"\0" + f.payload[:2] + W.lvstr(f"n{n}"), f"n{n}", specific=True, cut=4)
        elif cl == 4 and f.cmd == 2:
            out(2, bytes([5, 2]) + W.u16(n) + W.u16(n + 1), [n, n + 1], specific=True, cut=4)
        elif cl == 6:
            if tx.tag in ONEWAY:
                return True
            st = STATUSES[n % len(STATUSES)]
            out(W.DEFAULT_RSP, bytes([f.cmd, st]), (f.cmd, st))
        else:
            return False
        return True

    def zdo(self, dev, tx, tsn, c, b, bcast):
        n = self.next()
        T = W.u8(tsn)

        def out(payload, value, cut):
            self.send(dev, tx, 0, 0, 0, c | W.RSP, T + payload, T + payload[:cut], value)

        if c == W.MGMT_LQI_REQ:
            out(W.u8(0) + bytes([n & 0xFF, (n >> 8) & 0xFF, 0]), (n & 0xFF, (n >> 8) & 0xFF), 0)
        elif c == W.NODE_DESC_REQ:
            out(W.u8(0) + W.u16(dev.nwk) + W.node_desc(dev.logical, 0x8E, n), n, 2)
        elif c == W.ACTIVE_EP_REQ:
            out(W.u8(0) + W.u16(dev.nwk) + bytes([2, n & 0xFF, n >> 8]), [n & 0xFF, n >> 8], 4)
        elif c == W.MGMT_LEAVE_REQ:
            st = [0, 0x84, 0x85, 0x8B][n % 4]
            out(W.u8(st), st, 0)
        else:
            return False
        return True

    def install(self, dev):
        dev.zcl_hook = lambda tx, f, e: self.zcl(dev, tx, f, e)
        dev.zdo_hook = lambda tx, tsn, c, b, bc: self.zdo(dev, tx, tsn, c, b, bc)


def call(dev, op, R):
    """The coroutine of one request; everything up to the device queue runs
    synchronously when it is first awaited."""
    from zigpy.zcl import foundation as f

    k = op["kind"]
    kw = {}
    for name in ("timeout", "priority"):
        if op.get(name) is not None:
            kw[name] = op[name]
    if op.get("ieee"):
        kw["use_ieee"] = True
    if op.get("ack") is not None:
        kw["ask_for_ack"] = op["ack"]
    ep = dev.endpoints[op["ep"]]
    onoff, grp = ep.in_clusters[6], ep.in_clusters[4]
    a = 0xE000 + op["id"]
    if k == "read":
        return onoff.read_attributes_raw([a], **kw)
    if k == "reads":
        return onoff.read_attributes([a, a + 0x100, 0x0000], **kw)
    if k == "write":
        at = f.Attribute(R.t.uint16_t(a), f.TypeValue(type=0x21, value=R.t.uint16_t(op["id"])))
        return onoff.request(True, f.GeneralCommand.Write_Attributes, f.GENERAL_COMMANDS[2].schema, [at], **kw)
    if k == "confrep":
        c = f.AttributeReportingConfig()
        c.direction, c.attrid, c.datatype, c.min_interval, c.max_interval = 0, R.t.uint16_t(a), R.t.uint8_t(0x10), R.t.uint16_t(1), R.t.uint16_t(2)
        c.reportable_change = None
        return onoff._configure_reporting([c], **kw)
    if k == "disc":
        return onoff.discover_attributes(a, 10, **kw)
    if k == "view":
        return grp.view(op["id"], **kw)
    if k == "getmem":
        return grp.get_membership([op["id"]], **kw)
    if k == "cmd":
        return onoff.command(op["id"] % 3, **kw)
    if k == "raw":
        tsn = dev.get_sequence()
        data = W.Zcl(False, False, tsn, W.READ, W.u16(a), disable_dr=False).bytes()
        return dev.request(0x0104, 6, 1, op["ep"], tsn, data, **kw)
    if k == "lqi":
        return dev.zdo.Mgmt_Lqi_req(op["id"] & 0xFF, **kw)
    if k == "nd":
        return dev.zdo.Node_Desc_req(dev.nwk, **kw)
    if k == "aep":
        return dev.zdo.Active_EP_req(dev.nwk, **kw)
    if k == "leave":
        return dev.zdo.Mgmt_Leave_req(dev.ieee, 0x40, **kw)
    if k == "noreply":
        return onoff.command(2, expect_reply=False, **kw)
    if k == "reply":
        kw.pop("timeout", None)
        out = dev.endpoints[1].out_clusters[6]
        return out.reply(True, f.GeneralCommand.Default_Response, f.GENERAL_COMMANDS[0x0B].schema,
                         2, 0, tsn=op["id"] & 0xFF, **kw)
    raise KeyError(k)


def result_value(k, res):
    """What zigpy returned, in the terms of Nonces."""
    if k in ("read", "raw"):
        if not isinstance(res[0], list):
            return ("default", int(res[1]))
        return [int(r.value.value) for r in res[0]]
    if k == "reads":
        ok, bad = res
        if bad:
            sts = {int(v) for v in bad.values()}
            return ("default", sts.pop()) if len(sts) == 1 and not ok else ("mixed", ok, bad)
        return [int(v) for v in ok.values()]
    if k == "write":
        return int(res[0][0].attrid) if len(res[0]) == 1 else ("odd", res)
    if k == "confrep":
        return int(res[0][0].attrid) if len(res[0]) == 1 else ("odd", res)
    if k == "disc":
        return int(res.attribute_info[0].attrid)
    if k == "view":
        return str(res.group_name)
    if k == "getmem":
        return [int(x) for x in res.groups]
    if k == "cmd":
        return (int(res.command_id), int(res.status))
    if k == "lqi":
        return (int(res[1].Entries), int(res[1].StartIndex))
    if k == "nd":
        return int(res[2].manufacturer_code)
    if k == "aep":
        return [int(x) for x in res[2]]
    if k == "leave":
        return int(res[0])
    raise KeyError(k)


NOISE = ["report", "c2s", "other_cluster_rsp", "cluster_rsp", "general_rsp", "zdo_other", "zdo_same_as_zcl", "zdo_req",
         "zcl_as_zdo", "other_dev", "bad_report", "unknown_general", "s2c_read", "wrong_tsn", "default_other_cluster",
         "bad_read", "c2s_rsp_cluster"]


def noise(radio, dev, other, tx, kind):
    """Deliver unrelated traffic that carries the sequence number of ``tx``."""
    zdo = tx.dst_ep == 0
    tsn = tx.data[0] if zdo else W.Zcl.parse(tx.data).tsn
    cl = 6 if zdo else int(tx.cluster)
    ep = 1 if zdo else tx.dst_ep
    specific = False if zdo else W.Zcl.parse(tx.data).cluster_specific
    cmd = 0 if zdo else W.Zcl.parse(tx.data).cmd

    def z(f, cluster=cl, d=dev):
        radio.deliver(d, d.nwk, ep, ep, 0x0104, cluster, f.bytes())

    def zd(cluster, payload, d=dev):
        radio.deliver(d, d.nwk, 0, 0, 0, cluster, W.u8(tsn) + payload)

    if kind == "report":
        z(W.Zcl(False, True, tsn, W.REPORT, W.u16(0xF000) + b"\x20\x01"))
    elif kind == "bad_report":
        z(W.Zcl(False, True, tsn, W.REPORT, W.u16(0) + b"\x10"))
    elif kind == "c2s":
        z(W.Zcl(True, False, tsn, 2 if cl == 6 else 1, b"" if cl == 6 else W.u16(1)))
    elif kind == "other_cluster_rsp":
        z(W.Zcl(False, True, tsn, W.READ_RSP, W.u16(0xE000) + b"\0\x23" + W.u32(1)), cluster=0)
    elif kind == "default_other_cluster":
        z(W.Zcl(False, True, tsn, W.DEFAULT_RSP, bytes([cmd, 0])), cluster=4 if cl != 4 else 6)
    elif kind == "cluster_rsp":
        # a cluster command of the server cannot answer a general command
        if specific or cl != 6 and cl != 4:
            return False
        z(W.Zcl(True, True, tsn, 0x10 if cl == 6 else 0, W.u8(0) + W.u16(1)))
    elif kind == "general_rsp":
        if not zdo:
            return False
        z(W.Zcl(False, True, tsn, W.READ_RSP, W.u16(0) + b"\0\x10\x01"))
    elif kind == "zdo_other":
        zd(0x8021 if int(tx.cluster) != 0x21 else 0x8022, W.u8(0))
    elif kind == "zdo_same_as_zcl":
        if zdo:
            return False
        # ZDO cluster numbers overlap with those of application clusters
        zd(0x8000 | 5 if cl == 5 else 0x8005, W.u8(0) + W.u16(dev.nwk) + bytes([1, 1]))
    elif kind == "zdo_req":
        zd(int(tx.cluster) if zdo else 0x0002, W.u16(dev.nwk) + bytes(20) if not zdo or int(tx.cluster) != 0x31 else b"\0")
    elif kind == "zcl_as_zdo":
        if not zdo:
            return False
        z(W.Zcl(False, True, tsn, W.DEFAULT_RSP, bytes([0, 0])))
    elif kind == "other_dev":
        if other is None:
            return False
        if zdo:
            zd(int(tx.cluster) | W.RSP, {W.MGMT_LQI_REQ: bytes(4), W.NODE_DESC_REQ: b"\0" + W.u16(dev.nwk) + W.node_desc(1, 0x8E, 0),
                                         W.ACTIVE_EP_REQ: b"\0" + W.u16(dev.nwk) + b"\0", W.MGMT_LEAVE_REQ: b"\0"}.get(int(tx.cluster), b"\0"), d=other)
        else:
            z(W.Zcl(False, True, tsn, W.DEFAULT_RSP, bytes([cmd, 0])), d=other)
    elif kind == "unknown_general":
        z(W.Zcl(False, True, tsn, 0x42, b"\x01\x02\x03"))
    elif kind == "s2c_read":
        z(W.Zcl(False, True, tsn, W.READ, W.u16(0)))
    elif kind == "bad_read":
        z(W.Zcl(False, True, tsn, W.READ, b"\0"))
    elif kind == "wrong_tsn":
        tsn = (tsn + 128) & 0xFF
        if zdo:
            zd(int(tx.cluster) | W.RSP, b"\0" + W.u16(dev.nwk) + W.node_desc(1, 0x8E, 0))
        else:
            z(W.Zcl(False, True, tsn, W.DEFAULT_RSP, bytes([cmd, 0])))
    elif kind == "c2s_rsp_cluster":
        if not specific or cl != 4:
            return False
        z(W.Zcl(True, False, tsn, 1, W.u16(7)))
    else:
        raise KeyError(kind)
    return True
