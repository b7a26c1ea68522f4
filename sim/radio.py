"""Simulated radio network: transport, devices and a ControllerApplication
whose radio is the simulation.  Imported lazily, after core.install()."""
from __future__ import annotations

import asyncio
import copy

from . import wire as W
from .core import HarnessError, frames_of

import zigpy.application
import zigpy.config as conf
import zigpy.device
import zigpy.exceptions
import zigpy.state
import zigpy.types as t
import zigpy.zdo.types as zdo_t

COORD_IEEE = 0x00124B00AABB0001
GRID = 0.25


def eui(n):
    return t.EUI64.deserialize(W.u64(n))[0]


class Tx:
    """One packet handed to the radio by zigpy (ground truth)."""

    __slots__ = ("n", "t0", "t1", "dst_mode", "dst", "src_ep", "dst_ep", "profile", "cluster", "data", "priority",
                 "source_route", "tx_options", "extended", "outcome", "radius", "packet", "group", "step", "exc", "tag", "life")


class Rx:
    """One packet handed to zigpy by the radio (ground truth)."""

    __slots__ = ("n", "t", "dev", "src_nwk", "src_ep", "dst_ep", "profile", "cluster", "data", "lqi", "rssi", "raised", "req")


DEFAULT_RATES = {
    "drop_req": 0.0, "drop_rsp": 0.0, "dup_req": 0.0, "dup_rsp": 0.0, "send_err": 0.0, "send_err_delivered": 0.0,
    "slow_send": 0.0, "slow_rsp": 0.0, "late_rsp": 0.0, "early_rsp": 0.0, "send_timeout": 0.0, "send_weird": 0.0,
}

class Weird(Exception):
    """Marks an exception raised by the simulated radio library itself."""


def _weird(base):
    return type(base.__name__, (base, Weird), {"__module__": base.__module__})


# what radio libraries raise besides DeliveryError
_WEIRD = [(_weird(zigpy.exceptions.ControllerException), "the controller is gone"), (_weird(ConnectionResetError), "the port is gone"),
          (_weird(RuntimeError), "no serial protocol"), (_weird(ValueError), "unknown frame")]
WEIRD = [lambda c=c, m=m: c(m) for c, m in _WEIRD]


class Radio:
    def __init__(self, world, cfg=None):
        self.w = world
        self.cfg = cfg or {}
        self.rates = {**DEFAULT_RATES, **self.cfg.get("rates", {})}
        self.lat = self.cfg.get("lat", [0.0, 0.5])
        self.send_lat = self.cfg.get("send_lat", [0.0, 0.25])
        self.slow = self.cfg.get("slow", 4.0)
        self.late = self.cfg.get("late", 8.0)
        self.app = None
        self.devices = {}
        self.txs = []
        self.rxs = []
        self.faults_on = True
        self.connected = False
        self.on_submit = []  # callbacks(packet) when zigpy asks for a transmission
        self.on_tx = []  # callbacks(Tx) at the moment zigpy hands a packet over
        self.on_rx = []  # callbacks(Rx) right before delivery
        self.after_rx = []
        self.send_gate = None  # optional async fn(packet) run inside send_packet
        self.broadcasts = []
        self.raise_violations = True
        self.sending = 0
        self.parallel = self.cfg.get("parallel", True)

    # ---- helpers
    def add(self, dev):
        self.devices[dev.ieee] = dev
        dev.radio = self
        return dev

    def by_nwk(self, nwk):
        for d in self.devices.values():
            if d.nwk == nwk and d.on_network:
                return d
        return None

    def fault(self, kind, dev):
        if not self.faults_on:
            return False
        p = self.rates.get(kind, 0.0)
        if p <= 0 and self.w.dec.given is None:
            return False
        if self.w.dec.chance(f"{kind}.{dev}", p):
            self.w.stats["fault_" + kind] += 1
            return True
        return False

    def delay(self, point, rng):
        return self.w.dec.uniform(point, rng[0], rng[1], grid=GRID if rng[1] >= GRID else None)

    # ---- zigpy -> network
    async def send(self, packet):
        w = self.w
        tx = Tx()
        tx.n = len(self.txs)
        tx.t0, tx.t1, tx.outcome = w.now, None, "pending"
        tx.packet = packet
        tx.exc = tx.tag = None
        tx.dst_mode = packet.dst.addr_mode
        tx.dst = packet.dst.address
        tx.src_ep, tx.dst_ep = packet.src_ep, packet.dst_ep
        tx.profile, tx.cluster = packet.profile_id, packet.cluster_id
        tx.data = packet.data.serialize()
        tx.priority = packet.priority
        tx.source_route = None if packet.source_route is None else [int(x) for x in packet.source_route]
        tx.tx_options, tx.extended, tx.radius = packet.tx_options, packet.extended_timeout, packet.radius
        self.txs.append(tx)
        if tx.dst_mode == t.AddrMode.NWK:
            dev = self.by_nwk(int(tx.dst))
        elif tx.dst_mode == t.AddrMode.IEEE:
            dev = self.devices.get(int.from_bytes(tx.dst.serialize(), "little"))
        else:
            dev = None
        name = dev.name if dev is not None else "bcast" if tx.dst_mode not in (t.AddrMode.NWK, t.AddrMode.IEEE) else "nobody"
        tx.life = dev.life if dev is not None else None
        tx.step = w.log("tx", name, int(tx.cluster), tx.data.hex(), int(tx.priority))
        for cb in self.on_tx:
            cb(tx)
        self.sending += 1
        try:
            if self.send_gate is not None:
                await self.send_gate(packet, tx)
            if tx.dst_mode in (t.AddrMode.Broadcast, t.AddrMode.Group):
                await self._broadcast(tx)
                return
            if dev is None:
                # nobody answers at that address
                d = self.delay("send.nobody", self.send_lat)
                if d:
                    await asyncio.sleep(d)
                tx.outcome, tx.t1 = "no-route", w.now
                w.log("tx_fail", name)
                w.stats["fault_no_route"] += 1
                raise zigpy.exceptions.DeliveryError("no route", status=0xE9)
            if dev.is_coordinator:
                self._to_device(dev, tx, loopback=True)
                tx.outcome, tx.t1 = "sent", w.now
                return
            lat = self.delay(f"send.{name}", self.send_lat)
            if self.fault("slow_send", name):
                lat += self.delay(f"slow_send.len.{name}", [0.5, self.slow])
            err = self.fault("send_err", name)
            if not dev.reachable():
                w.stats["fault_unreachable"] += 1
                err = err or dev.offline_error
                if lat:
                    await asyncio.sleep(lat)
                tx.t1 = w.now
                if err:
                    tx.outcome = "failed"
                    w.log("tx_fail", name)
                    raise zigpy.exceptions.DeliveryError("unreachable", status=0xE9)
                tx.outcome = "sent"
                return
            if err:
                if self.fault("send_err_delivered", name):
                    self._to_device(dev, tx)
                if lat:
                    await asyncio.sleep(lat)
                tx.outcome, tx.t1 = "failed", w.now
                w.log("tx_fail", name)
                if self.fault("send_timeout", name):
                    raise asyncio.TimeoutError()
                if self.fault("send_weird", name):
                    raise WEIRD[w.dec.pick(f"weird.{name}", len(WEIRD))]()
                raise zigpy.exceptions.DeliveryError("injected", status=0xE9)
            early = self.fault("early_rsp", name)
            if not early and lat:
                # the request is on the air only after the radio took it
                w.loop.call_later(lat, self._to_device, dev, tx)
            else:
                self._to_device(dev, tx)
            if lat:
                await asyncio.sleep(lat)
            if early:
                # the confirmation is slower than the device's answer
                await asyncio.sleep(self.delay(f"early.len.{name}", [0.25, 1.5]))
            tx.outcome, tx.t1 = "sent", w.now
        except asyncio.CancelledError:
            if tx.outcome == "pending":
                tx.outcome, tx.t1 = "cancelled", w.now
            raise
        except Exception as e:
            tx.exc = e
            raise
        finally:
            self.sending -= 1
            w.log("tx_end", name, tx.outcome)

    async def _broadcast(self, tx):
        w = self.w
        self.broadcasts.append(tx)
        d = self.delay("send.bcast", self.send_lat)
        if d:
            await asyncio.sleep(d)
        if self.fault("send_err", "bcast"):
            tx.outcome, tx.t1 = "failed", w.now
            raise zigpy.exceptions.DeliveryError("injected", status=0xE1)
        tx.outcome, tx.t1 = "sent", w.now
        for dev in list(self.devices.values()):
            if dev.is_coordinator or not dev.on_network:
                continue
            self._to_device(dev, tx, bcast=True)

    def _to_device(self, dev, tx, loopback=False, bcast=False):
        if not loopback:
            if self.fault("drop_req", dev.name):
                self.w.log("lost_req", dev.name)
                return
        n = 1
        if not loopback and self.fault("dup_req", dev.name):
            n = 2
        for _ in range(n):
            d = 0.0 if loopback else self.delay(f"air.{dev.name}", self.lat)
            self.w.loop.call_later(d, self._at_device, dev, tx, bcast)

    def _at_device(self, dev, tx, bcast):
        if not dev.is_coordinator and not dev.reachable():
            self.w.stats["fault_unreachable"] += 1
            return
        dev.received(tx, bcast)

    # ---- network -> zigpy
    def reply(self, dev, src_ep, dst_ep, profile, cluster, data, req=None, lossy=True):
        """A device sends a packet to the coordinator."""
        w = self.w
        if lossy and not dev.is_coordinator:
            if self.fault("drop_rsp", dev.name):
                w.log("lost_rsp", dev.name)
                return
            n = 2 if self.fault("dup_rsp", dev.name) else 1
        else:
            n = 1
        life = getattr(req, "life", None)
        if life is None:
            life = dev.life
        for _ in range(n):
            d = 0.0 if dev.is_coordinator else self.delay(f"rsp.{dev.name}", self.lat)
            if lossy and self.fault("slow_rsp", dev.name):
                d += self.delay(f"slow_rsp.len.{dev.name}", [0.5, self.slow])
            if lossy and self.fault("late_rsp", dev.name):
                d += self.delay(f"late_rsp.len.{dev.name}", [self.slow, self.late])
            w.loop.call_later(d, self._deliver_same_app, self.app, dev, life, dev.nwk, src_ep, dst_ep, profile, cluster, data, req)

    def _deliver_same_app(self, app, dev, life, nwk, src_ep, dst_ep, profile, cluster, data, req):
        # replies to requests of an application that is gone are not delivered
        # to its successor, which may by now use the same sequence number; nor
        # are those of a device that was replaced or forgotten since
        if req is not None and (app is not self.app or life != dev.life):
            return
        self.deliver(dev, nwk, src_ep, dst_ep, profile, cluster, data, req)

    def deliver(self, dev, src_nwk, src_ep, dst_ep, profile, cluster, data, req=None, packet=None, lqi=None, rssi=None):
        w = self.w
        if self.app is None or not self.connected:
            return None
        rx = Rx()
        rx.n, rx.t, rx.dev, rx.src_nwk = len(self.rxs), w.now, dev, src_nwk
        rx.src_ep, rx.dst_ep, rx.profile, rx.cluster, rx.data, rx.req = src_ep, dst_ep, profile, cluster, data, req
        rx.lqi, rx.rssi, rx.raised = lqi, rssi, None
        self.rxs.append(rx)
        w.log("rx", dev.name if dev is not None else src_nwk, cluster, data.hex())
        for cb in self.on_rx:
            cb(rx)
        if packet is None:
            packet = t.ZigbeePacket(
                src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(src_nwk)),
                src_ep=t.uint8_t(src_ep),
                dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0x0000)),
                dst_ep=t.uint8_t(dst_ep),
                profile_id=t.uint16_t(profile),
                cluster_id=t.uint16_t(cluster),
                data=t.SerializableBytes(data),
                lqi=None if lqi is None else t.uint8_t(lqi),
                rssi=None if rssi is None else t.int8s(rssi),
            )
        try:
            self.app.packet_received(packet)
        except Exception as e:  # noqa: BLE001
            rx.raised = e
            inz, txt = frames_of(e)
            if not inz:
                raise
            if self.raise_violations:
                w.violate("receiver-raised", f"packet_received raised for cluster {cluster:#06x} data {data.hex()}: {txt}")
        for cb in self.after_rx:
            cb(rx)
        return rx


class SimDevice:
    """A Zigbee device: answers ZDO and general ZCL commands from its own
    ground truth."""

    is_coordinator = False

    def __init__(self, world, ieee, nwk, spec, name):
        self.w = world
        self.ieee, self.nwk, self.name = ieee, nwk, name
        self.spec = spec
        self.logical = spec.get("logical", 1)
        self.manuf = spec.get("manuf", 0x1234)
        self.pad_errors = spec.get("pad_errors", False)  # error answers carry a body (of junk) too
        self.node_desc_bytes = W.node_desc(self.logical, spec.get("mac_caps", 0x8E), self.manuf)
        # endpoints: id -> dict(profile, dev_type, version, ins, outs, attrs)
        self.eps = {int(k): dict(v) for k, v in spec.get("eps", {}).items()}
        for e in self.eps.values():
            e.setdefault("profile", 0x0104)
            e.setdefault("dev_type", 0x0100)
            e.setdefault("version", 1)
            e.setdefault("ins", [0])
            e.setdefault("outs", [])
            a = {}
            for k, v in (e.get("attrs") or {}).items():
                c, at = (int(x) for x in str(k).split(":"))
                a[(c, at)] = (v[0], bytes.fromhex(v[1]) if isinstance(v[1], str) else v[1])
            e["attrs"] = a
            e["groups"] = list(e.get("groups", []))
            e["group_cap"] = e.get("group_cap", 16)
        self.radio = None
        self.on_network = True
        self.life = 0
        self.online = True
        self.offline_error = False
        self.processed = []  # (time, tx) in order of processing
        self.status_script = {}  # (kind, key) -> list of statuses to return once each
        self.neighbors = []  # list of 22-byte entries
        self.routes = []  # list of 5-byte entries
        self.page = 3
        self.rpage = 3
        self.tsn = spec.get("tsn0", 0)
        self.left = []
        self.no_answer = set()  # clusters/commands silently ignored
        self.zcl_hook = None
        self.zdo_hook = None
        self.writes = []

    def reachable(self):
        return self.on_network and self.online

    # ---- dispatch
    def received(self, tx, bcast=False):
        self.processed.append((self.w.now, tx))
        self.w.log("dev_rx", self.name, int(tx.cluster))
        if tx.dst_ep == 0 or (tx.dst_ep is None and tx.profile == 0):
            self._zdo(tx, bcast)
        else:
            self._zcl(tx)

    def rsp(self, tx, payload, cluster=None):
        self.radio.reply(self, 0, 0, 0, (tx.cluster | W.RSP) if cluster is None else cluster, payload, req=tx)

    def scripted(self, key, default):
        lst = self.status_script.get(key)
        if lst:
            return lst.pop(0)
        return default

    def _zdo(self, tx, bcast):
        b = W.Buf(tx.data)
        tsn = b.u8()
        c = int(tx.cluster)
        if c & W.RSP:
            return  # a response to us
        if c in self.no_answer:
            return
        if self.zdo_hook is not None and self.zdo_hook(tx, tsn, c, b, bcast):
            return
        try:
            self._zdo_cmd(tx, bcast, b, tsn, c)
        except ValueError:
            pass

    def _zdo_cmd(self, tx, bcast, b, tsn, c):
        T = W.u8(tsn)
        if c == W.NWK_ADDR_REQ:
            want = b.u64()
            if want == self.ieee:
                self.rsp(tx, T + W.u8(0) + W.u64(self.ieee) + W.u16(self.nwk))
            elif not bcast:
                self.rsp(tx, T + W.u8(W.ZDO_DEVICE_NOT_FOUND) + W.u64(want) + W.u16(0xFFFF))
        elif c == W.IEEE_ADDR_REQ:
            want = b.u16()
            if want == self.nwk:
                self.rsp(tx, T + W.u8(0) + W.u64(self.ieee) + W.u16(self.nwk))
            elif not bcast:
                self.rsp(tx, T + W.u8(W.ZDO_DEVICE_NOT_FOUND) + W.u64(0xFFFFFFFFFFFFFFFF) + W.u16(want))
        elif c == W.NODE_DESC_REQ:
            st = self.scripted("node_desc", 0)
            self.rsp(tx, T + W.u8(st) + W.u16(self.nwk) + (self.node_desc_bytes if st == 0 else
                                                                   bytes(13) if self.pad_errors else b""))
        elif c == W.ACTIVE_EP_REQ:
            st = self.scripted("active_ep", 0)
            eps = list(self.eps) if st == 0 else [0x77] if self.pad_errors else []
            self.rsp(tx, T + W.u8(st) + W.u16(self.nwk) + W.u8(len(eps)) + bytes(eps))
        elif c == W.SIMPLE_DESC_REQ:
            b.u16()
            ep = b.u8()
            st = self.scripted(f"simple_desc{ep}", 0 if ep in self.eps else W.ZDO_NOT_ACTIVE)
            if st == 0:
                e = self.eps[ep]
                sd = W.simple_desc(ep, e["profile"], e["dev_type"], e["version"], e["ins"], e["outs"])
                self.rsp(tx, T + W.u8(0) + W.u16(self.nwk) + sd)
            elif self.pad_errors:
                self.rsp(tx, T + W.u8(st) + W.u16(self.nwk) + W.simple_desc(ep, 0x0999, 0x0999, 9, [0, 9], [9]))
            else:
                self.rsp(tx, T + W.u8(st) + W.u16(self.nwk) + W.u8(0))
        elif c == W.POWER_DESC_REQ:
            self.rsp(tx, T + W.u8(0) + W.u16(self.nwk) + bytes([0x10, 0xC1]))
        elif c == W.MGMT_LQI_REQ:
            start = b.u8()
            st = self.scripted("lqi", 0)
            if st:
                self.rsp(tx, T + W.u8(st) + bytes(3))
            else:
                ents = self.neighbors[start : start + self.page]
                self.rsp(tx, T + W.u8(0) + bytes([len(self.neighbors), start, len(ents)]) + b"".join(ents))
        elif c == W.MGMT_RTG_REQ:
            start = b.u8()
            st = self.scripted("rtg", 0)
            if st:
                self.rsp(tx, T + W.u8(st) + bytes(3))
            else:
                ents = self.routes[start : start + self.rpage]
                self.rsp(tx, T + W.u8(0) + bytes([len(self.routes), start, len(ents)]) + b"".join(ents))
        elif c == W.MGMT_LEAVE_REQ:
            who = b.u64()
            opts = b.u8()
            self.left.append((self.w.now, who, opts))
            st = self.scripted("leave", 0)
            self.rsp(tx, T + W.u8(st))
        elif c in (W.BIND_REQ, W.UNBIND_REQ):
            self.rsp(tx, T + W.u8(self.scripted("bind", 0)))
        elif c == W.MGMT_PERMIT_REQ:
            if not bcast:
                self.rsp(tx, T + W.u8(self.scripted("permit", 0)))
        elif c == W.NWK_UPDATE_REQ:
            self.nwk_update(tx, tsn, b, bcast)
        elif c == W.DEVICE_ANNCE:
            pass
        else:
            if not bcast:
                self.rsp(tx, T + W.u8(W.ZDO_NOT_SUPPORTED))

    def nwk_update(self, tx, tsn, b, bcast):
        if not bcast:
            self.rsp(tx, W.u8(tsn) + W.u8(0) + W.u32(0x07FFF800) + W.u16(0) + W.u16(0) + W.u8(16) + bytes([80] * 16))

    # ---- ZCL
    def zcl_reply(self, tx, f, cmd, payload, cluster_specific=False, ep=None):
        # answers go in the other direction than the request
        out = W.Zcl(cluster_specific, not f.s2c, f.tsn, cmd, payload, manuf=f.manuf)
        self.radio.reply(self, tx.dst_ep if ep is None else ep, tx.src_ep, tx.profile, tx.cluster, out.bytes(), req=tx)

    def _zcl(self, tx):
        eps = [tx.dst_ep] if tx.dst_ep in self.eps else []
        if not eps:
            return
        e = self.eps[tx.dst_ep]
        try:
            f = W.Zcl.parse(tx.data)
        except ValueError:
            return
        if self.zcl_hook is not None and self.zcl_hook(tx, f, e):
            return
        if ("zcl", int(tx.cluster)) in self.no_answer:
            return
        if f.s2c and (f.cluster_specific or int(tx.cluster) not in e["outs"] or f.cmd not in (W.READ, W.WRITE, W.CONF_REP, W.DISC)):
            return
        try:
            if f.cluster_specific:
                self._zcl_cluster(tx, f, e)
            else:
                self._zcl_general(tx, f, e)
        except ValueError:
            self.zcl_reply(tx, f, W.DEFAULT_RSP, bytes([f.cmd, 0x80]))

    def attr(self, e, cluster, attr):
        return e["attrs"].get((cluster, attr))

    def _zcl_general(self, tx, f, e):
        b = W.Buf(f.payload)
        cl = int(tx.cluster)
        if f.cmd == W.READ:
            out = b""
            while b.left:
                a = b.u16()
                v = self.attr(e, cl, a)
                st = self.scripted(f"read{cl}:{a}", 0 if v is not None else W.ZCL_UNSUP_ATTR)
                if st == 0 and v is not None:
                    out += W.u16(a) + W.u8(0) + W.u8(v[0]) + v[1]
                else:
                    out += W.u16(a) + W.u8(st or W.ZCL_UNSUP_ATTR)
            self.zcl_reply(tx, f, W.READ_RSP, out)
        elif f.cmd in (W.WRITE, W.WRITE_UNDIV):
            recs = []
            while b.left:
                a = b.u16()
                ty = b.u8()
                raw = W.take_value(b, ty)
                st = self.scripted(f"write{cl}:{a}", 0 if (cl, a) in e["attrs"] else W.ZCL_UNSUP_ATTR)
                recs.append((a, ty, raw, st))
            for a, ty, raw, st in recs:
                if st == 0:
                    e["attrs"][(cl, a)] = (ty, raw)
                    self.writes.append((self.w.now, tx.dst_ep, cl, a, ty, raw))
            if all(r[3] == 0 for r in recs):
                self.zcl_reply(tx, f, W.WRITE_RSP, W.u8(0))
            else:
                self.zcl_reply(tx, f, W.WRITE_RSP, b"".join(W.u8(r[3]) + W.u16(r[0]) for r in recs if r[3]))
        elif f.cmd == W.CONF_REP:
            recs = []
            while b.left:
                d = b.u8()
                a = b.u16()
                if d == 0:
                    ty = b.u8()
                    b.u16()
                    b.u16()
                    if ty in (0x20, 0x21, 0x22, 0x23, 0x25, 0x28, 0x29, 0x2A, 0x2B, 0x38, 0x39, 0x27, 0x2F, 0x3A):
                        b.take(W.FIXED[ty])
                else:
                    b.u16()
                st = self.scripted(f"confrep{cl}:{a}", 0 if (cl, a) in e["attrs"] else W.ZCL_UNSUP_ATTR)
                recs.append((st, d, a))
            if all(r[0] == 0 for r in recs):
                self.zcl_reply(tx, f, W.CONF_REP_RSP, W.u8(0))
            else:
                self.zcl_reply(tx, f, W.CONF_REP_RSP, b"".join(W.u8(r[0]) + W.u8(r[1]) + W.u16(r[2]) for r in recs if r[0]))
        elif f.cmd == W.DISC:
            start = b.u16()
            n = b.u8()
            ids = sorted(a for (c, a) in e["attrs"] if c == cl and a >= start)
            out = ids[:n]
            self.zcl_reply(tx, f, W.DISC_RSP, W.u8(1 if len(ids) <= n else 0) + b"".join(
                W.u16(a) + W.u8(e["attrs"][(cl, a)][0]) for a in out))
        elif f.cmd in (W.DEFAULT_RSP, W.REPORT, W.WRITE_NO_RSP, W.READ_RSP):
            if f.cmd == W.WRITE_NO_RSP:
                while b.left:
                    a = b.u16()
                    ty = b.u8()
                    e["attrs"][(cl, a)] = (ty, W.take_value(b, ty))
        else:
            self.zcl_reply(tx, f, W.DEFAULT_RSP, bytes([f.cmd, W.ZCL_UNSUP_GENERAL]))

    def _zcl_cluster(self, tx, f, e):
        cl = int(tx.cluster)
        if cl == 0x0004:
            return self._groups(tx, f, e)
        st = self.scripted(f"cmd{cl}:{f.cmd}", 0)
        self.zcl_reply(tx, f, W.DEFAULT_RSP, bytes([f.cmd, st]))

    def _groups(self, tx, f, e):
        b = W.Buf(f.payload)
        g = e["groups"]
        if f.cmd == 0:  # add
            gid = b.u16()
            st = self.scripted("grp_add", None)
            if st is None:
                st = 0 if gid in g or len(g) < e["group_cap"] else W.ZCL_INSUFF
                if gid in g:
                    st = e.get("dup_status", 0)
                elif st == 0:
                    g.append(gid)
            self.zcl_reply(tx, f, 0, W.u8(st) + W.u16(gid), cluster_specific=True)
        elif f.cmd == 1:  # view
            gid = b.u16()
            self.zcl_reply(tx, f, 1, W.u8(0 if gid in g else W.ZCL_NOT_FOUND) + W.u16(gid) + W.lvstr(""), cluster_specific=True)
        elif f.cmd == 2:  # membership
            n = b.u8()
            want = [b.u16() for _ in range(n)]
            res = list(g) if not want else [x for x in g if x in want]
            cap = max(0, e["group_cap"] - len(g))
            self.zcl_reply(tx, f, 2, W.u8(cap) + W.u8(len(res)) + b"".join(W.u16(x) for x in res), cluster_specific=True)
        elif f.cmd == 3:  # remove
            gid = b.u16()
            st = self.scripted("grp_rem", None)
            if st is None:
                st = 0 if gid in g else W.ZCL_NOT_FOUND
                if gid in g:
                    g.remove(gid)
            self.zcl_reply(tx, f, 3, W.u8(st) + W.u16(gid), cluster_specific=True)
        elif f.cmd == 4:
            g.clear()
            self.zcl_reply(tx, f, W.DEFAULT_RSP, bytes([f.cmd, 0]))
        else:
            self.zcl_reply(tx, f, W.DEFAULT_RSP, bytes([f.cmd, W.ZCL_UNSUP_CLUSTER_CMD]))

    # ---- spontaneous traffic
    def next_tsn(self):
        self.tsn = (self.tsn + 1) & 0xFF
        return self.tsn

    def send_zdo(self, cluster, payload, tsn=None, lossy=True):
        tsn = self.next_tsn() if tsn is None else tsn
        self.radio.reply(self, 0, 0, 0, cluster, W.u8(tsn) + payload, lossy=lossy)

    def announce(self, lossy=True):
        cap = self.spec.get("mac_caps", 0x8E)
        self.send_zdo(W.DEVICE_ANNCE, W.u16(self.nwk) + W.u64(self.ieee) + W.u8(cap), lossy=lossy)

    def report(self, ep, cluster, recs, tsn=None, disable_dr=True, manuf=None, lossy=True):
        """recs: [(attr, type, raw)]"""
        tsn = self.next_tsn() if tsn is None else tsn
        pl = b"".join(W.u16(a) + W.u8(ty) + raw for a, ty, raw in recs)
        f = W.Zcl(False, True, tsn, W.REPORT, pl, manuf=manuf, disable_dr=disable_dr)
        self.radio.reply(self, ep, 1, self.eps[ep]["profile"], cluster, f.bytes(), lossy=lossy)
        return tsn


class Coordinator(SimDevice):
    is_coordinator = True

    def received(self, tx, bcast=False):
        if tx.dst_ep == 0:
            self.processed.append((self.w.now, tx))
            self._zdo(tx, bcast)
        else:
            self._zcl(tx)

    def nwk_update(self, tx, tsn, b, bcast):
        mask = b.u32()
        dur = b.u8()
        radio = self.radio
        if dur == 0xFE:
            ch = next((c for c in range(11, 27) if mask & (1 << c)), None)
            radio.channel_request(ch)
            self.rsp(tx, W.u8(tsn) + W.u8(0) + W.u32(mask) + W.u16(0) + W.u16(0) + W.u8(0))
            return
        en = radio.energy
        vals = [en.get(c, 80) for c in range(11, 27) if mask & (1 << c)]
        self.rsp(tx, W.u8(tsn) + W.u8(0) + W.u32(mask) + W.u16(0) + W.u16(0) + W.u8(len(vals)) + bytes(vals))


COORD_SPEC = {
    "logical": 0, "manuf": 0x1135, "mac_caps": 0x8F,
    "eps": {1: {"ins": [0, 6, 0x0A, 0x19], "outs": [1, 0x20, 0x500, 0x502], "dev_type": 0x0400}},
}


class SimRadio(Radio):
    """Radio with a coordinator and persistent network settings (survives
    application restarts)."""

    def __init__(self, world, cfg=None):
        super().__init__(world, cfg)
        self.coord = self.add(Coordinator(world, COORD_IEEE, 0x0000, COORD_SPEC, "coord"))
        self.energy = {}
        self.formed = self.cfg.get("formed", True)
        self.net = None  # dict of settings as written
        self.node = None
        self.writes = []
        self.channel_delay = 0.0
        self.ops = []  # radio API calls, for lifecycle checks
        self.on_load = []  # fn(app, network_info, node_info) after network settings were read
        self.fail = {}  # radio API name -> list of exceptions (or None) per call
        self.hang = {}
        if self.formed:
            self.net, self.node = default_network(self.cfg.get("net", {}))

    def channel_request(self, ch):
        def apply():
            if self.net is not None and ch is not None:
                self.net = self.net.replace(channel=t.uint8_t(ch))
        if self.channel_delay:
            self.w.loop.call_later(self.channel_delay, apply)
        else:
            apply()

    async def api(self, name):
        """Common entry of every radio API call: latency, failure, hang."""
        self.ops.append((self.w.now, name))
        self.w.log("api", name)
        lst = self.fail.get(name)
        exc = lst.pop(0) if lst else None
        d = self.w.dec.uniform(f"api.{name}", 0.0, self.cfg.get("api_lat", 0.0), grid=GRID) if self.cfg.get("api_lat") else 0
        if d:
            await asyncio.sleep(d)
        if exc is not None:
            self.w.stats["fault_radio_" + name] += 1
            raise exc


def default_network(over):
    net = zigpy.state.NetworkInfo(
        extended_pan_id=t.ExtendedPanId(eui(over.get("epid", 0x1122334455667788))),
        pan_id=t.PanId(over.get("pan_id", 0x1A62)),
        nwk_update_id=t.uint8_t(over.get("update_id", 0)),
        nwk_manager_id=t.NWK(0x0000),
        channel=t.uint8_t(over.get("channel", 15)),
        channel_mask=t.Channels.from_channel_list([over.get("channel", 15)]),
        security_level=t.uint8_t(5),
        network_key=zigpy.state.Key(
            key=t.KeyData(bytes.fromhex(over.get("key", "00112233445566778899aabbccddeeff"))),
            tx_counter=t.uint32_t(over.get("tx_counter", 1000)), rx_counter=t.uint32_t(0), seq=t.uint8_t(0)),
        tc_link_key=zigpy.state.Key(key=t.KeyData(b"ZigBeeAlliance09"), partner_ieee=eui(COORD_IEEE)),
        key_table=[], children=[], nwk_addresses={}, stack_specific={}, metadata={}, source="sim@1.0",
    )
    node = zigpy.state.NodeInfo(nwk=t.NWK(0), ieee=eui(COORD_IEEE), logical_type=zdo_t.LogicalType.Coordinator,
                                model="SimStick", manufacturer="Sim", version="1.0")
    return net, node


class SimApp(zigpy.application.ControllerApplication):
    """The application under test with its radio seam filled by SimRadio."""

    sim_radio = None

    async def connect(self):
        await self.sim_radio.api("connect")
        self.sim_radio.app = self
        self.sim_radio.connected = True

    async def disconnect(self):
        self.sim_radio.connected = False
        await self.sim_radio.api("disconnect")

    async def start_network(self):
        r = self.sim_radio
        await r.api("start_network")
        if r.net is None:
            raise zigpy.exceptions.NetworkNotFormed()
        await self.load_network_info(load_devices=False)
        ieee = self.state.node_info.ieee
        if ieee not in self.devices:
            dev = self.add_device(ieee, self.state.node_info.nwk)
        else:
            dev = self.devices[ieee]
        dev.nwk = self.state.node_info.nwk
        dev.node_desc = zdo_t.NodeDescriptor.deserialize(r.coord.node_desc_bytes)[0]
        for epid, e in r.coord.eps.items():
            if epid not in dev.endpoints:
                ep = dev.add_endpoint(epid)
            else:
                ep = dev.endpoints[epid]
            ep.profile_id = t.uint16_t(e["profile"])
            ep.device_type = zigpy.profiles.zha.DeviceType(e["dev_type"])
            for c in e["ins"]:
                ep.add_input_cluster(c)
            for c in e["outs"]:
                ep.add_output_cluster(c)
            ep.status = zigpy.endpoint.Status.ZDO_INIT
        dev.model = "Coordinator Model"
        dev.manufacturer = "Coordinator Manufacturer"
        await self.register_endpoints()

    async def send_packet(self, packet):
        r = self.sim_radio
        if not r.connected or r.app is not self:
            raise zigpy.exceptions.DeliveryError("radio is not connected")
        for cb in r.on_submit:
            cb(packet)
        async with self._limit_concurrency(priority=packet.priority):
            await r.send(packet)

    async def force_remove(self, dev):
        await self.sim_radio.api("force_remove")

    async def add_endpoint(self, descriptor):
        await self.sim_radio.api("add_endpoint")

    async def permit_ncp(self, time_s=60):
        await self.sim_radio.api("permit_ncp")
        self.sim_radio.permits = getattr(self.sim_radio, "permits", [])
        self.sim_radio.permits.append(time_s)

    async def permit_with_link_key(self, node, link_key, time_s=60):
        await self.sim_radio.api("permit_with_link_key")

    async def reset_network_info(self):
        await self.sim_radio.api("reset_network_info")
        self.sim_radio.net = None

    async def write_network_info(self, *, network_info, node_info):
        r = self.sim_radio
        await r.api("write_network_info")
        r.writes.append((copy.deepcopy(network_info), copy.deepcopy(node_info)))
        ni = copy.deepcopy(node_info)
        if ni.ieee == t.EUI64.UNKNOWN:
            ni = ni.replace(ieee=eui(COORD_IEEE))
        net = copy.deepcopy(network_info)
        if net.tc_link_key.partner_ieee == t.EUI64.UNKNOWN:
            net = net.replace(tc_link_key=net.tc_link_key.replace(partner_ieee=ni.ieee))
        # the hardware stores numbers; what it reports later is typed
        key = net.network_key
        r.net = net.replace(
            pan_id=t.PanId(net.pan_id), nwk_manager_id=t.NWK(net.nwk_manager_id), nwk_update_id=t.uint8_t(net.nwk_update_id), channel=t.uint8_t(net.channel),
            security_level=t.uint8_t(net.security_level), network_key=key.replace(tx_counter=t.uint32_t(key.tx_counter), seq=t.uint8_t(key.seq)))
        r.node = ni.replace(nwk=t.NWK(ni.nwk))

    async def load_network_info(self, *, load_devices=False):
        r = self.sim_radio
        await r.api("load_network_info")
        if r.net is None:
            raise zigpy.exceptions.NetworkNotFormed()
        net, node = copy.deepcopy(r.net), copy.deepcopy(r.node)
        if r.cfg.get("inplace"):
            # some radio libraries fill in the existing state objects
            vars(self.state.network_info).update(vars(net))
            vars(self.state.node_info).update(vars(node))
        else:
            self.state.network_info, self.state.node_info = net, node
        for cb in r.on_load:
            cb(self, net, node)

    async def _watchdog_feed(self):
        await self.sim_radio.api("watchdog_feed")


import zigpy.endpoint  # noqa: E402
import zigpy.profiles.zha  # noqa: E402


def base_config(**over):
    c = {
        conf.CONF_DATABASE: None,
        conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"},
        conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False},
        conf.CONF_STARTUP_ENERGY_SCAN: False,
        conf.CONF_NWK_BACKUP_ENABLED: False,
        conf.CONF_TOPO_SCAN_ENABLED: False,
        conf.CONF_WATCHDOG_ENABLED: False,
    }
    c.update(over)
    return c


class Recorder:
    """Listener that records every event it is offered."""

    def __init__(self, world, tag=""):
        self.events = []
        self.w = world
        self.tag = tag

    def __getattr__(self, name):
        if name.startswith("__") or name in ("events", "w", "tag"):
            raise AttributeError(name)

        def rec(*args):
            self.events.append((self.w.now, name, args))
            if name not in ("handle_message", "device_last_seen_updated"):
                self.w.log("ev", self.tag, name)

        return rec

    def of(self, *names):
        return [e for e in self.events if e[1] in names]


async def start_app(world, radio, cfg=None, auto_form=False, recorder=True, cls=SimApp):
    app = cls(cfg or base_config())
    app.sim_radio = radio
    rec = None
    if recorder:
        rec = Recorder(world)
        app.add_listener(rec)
    app.sim_rec = rec
    await app._load_db()
    await app.startup(**({"auto_form": True} if auto_form else {}))
    return app
