"""Hand-written ZDO/ZCL codec used by the simulated devices.

Deliberately independent of zigpy's own type system: only struct and ints.
"""
from __future__ import annotations

import struct


def u8(v):
    return bytes([v & 0xFF])


def u16(v):
    return struct.pack("<H", v & 0xFFFF)


def u32(v):
    return struct.pack("<I", v & 0xFFFFFFFF)


def u64(v):
    return struct.pack("<Q", v)


class Buf:
    def __init__(self, data):
        self.d = bytes(data)
        self.p = 0

    def take(self, n):
        if self.p + n > len(self.d):
            raise ValueError("short")
        r = self.d[self.p : self.p + n]
        self.p += n
        return r

    def u8(self):
        return self.take(1)[0]

    def u16(self):
        return struct.unpack("<H", self.take(2))[0]

    def u32(self):
        return struct.unpack("<I", self.take(4))[0]

    def u64(self):
        return struct.unpack("<Q", self.take(8))[0]

    def rest(self):
        r = self.d[self.p :]
        self.p = len(self.d)
        return r

    @property
    def left(self):
        return len(self.d) - self.p


# attribute data types: id -> (fixed size | None)
FIXED = {
    0x08: 1, 0x09: 2, 0x10: 1, 0x18: 1, 0x19: 2, 0x1B: 4, 0x20: 1, 0x21: 2, 0x22: 3, 0x23: 4, 0x25: 6, 0x27: 8,
    0x28: 1, 0x29: 2, 0x2A: 3, 0x2B: 4, 0x2F: 8, 0x30: 1, 0x31: 2, 0x38: 2, 0x39: 4, 0x3A: 8, 0xE0: 4, 0xE1: 4,
    0xE2: 4, 0xE8: 2, 0xE9: 2, 0xF0: 8, 0xF1: 16, 0x00: 0, 0xFF: 0,
}


def take_value(buf, typ):
    """Raw bytes of one attribute value of ZCL type ``typ``."""
    if typ in FIXED:
        return buf.take(FIXED[typ])
    if typ in (0x41, 0x42):
        n = buf.u8()
        return bytes([n]) + (b"" if n == 0xFF else buf.take(n))
    if typ in (0x43, 0x44):
        raw = buf.take(2)
        n = struct.unpack("<H", raw)[0]
        return raw + (b"" if n == 0xFFFF else buf.take(n))
    if typ in (0x48, 0x50, 0x51):
        t2 = buf.u8()
        raw = buf.take(2)
        n = struct.unpack("<H", raw)[0]
        out = bytes([t2]) + raw
        for _ in range(0 if n == 0xFFFF else n):
            out += take_value(buf, t2)
        return out
    if typ == 0x4C:
        raw = buf.take(2)
        n = struct.unpack("<H", raw)[0]
        out = raw
        for _ in range(0 if n == 0xFFFF else n):
            t2 = buf.u8()
            out += bytes([t2]) + take_value(buf, t2)
        return out
    raise ValueError(f"type {typ:#x}")


def lvstr(s):
    b = s.encode() if isinstance(s, str) else bytes(s)
    return bytes([len(b)]) + b


def decode(typ, raw):
    """Python value of the raw bytes of a simple ZCL type."""
    if typ in (0x41,):
        return bytes(raw[1:])
    if typ == 0x42:
        return raw[1:].decode()
    if typ == 0x39:
        return struct.unpack("<f", raw)[0]
    if typ == 0x3A:
        return struct.unpack("<d", raw)[0]
    if typ in (0x28, 0x29, 0x2A, 0x2B, 0x2F):
        return int.from_bytes(raw, "little", signed=True)
    return int.from_bytes(raw, "little")


class Zcl:
    """A parsed ZCL frame."""

    __slots__ = ("cluster_specific", "manuf", "s2c", "disable_dr", "tsn", "cmd", "payload")

    def __init__(self, cluster_specific, s2c, tsn, cmd, payload=b"", manuf=None, disable_dr=True):
        self.cluster_specific, self.s2c, self.tsn, self.cmd = cluster_specific, s2c, tsn, cmd
        self.payload, self.manuf, self.disable_dr = payload, manuf, disable_dr

    @classmethod
    def parse(cls, data):
        b = Buf(data)
        fc = b.u8()
        manuf = b.u16() if fc & 4 else None
        tsn = b.u8()
        cmd = b.u8()
        return cls(bool(fc & 3), bool(fc & 8), tsn, cmd, b.rest(), manuf, bool(fc & 0x10))

    def bytes(self):
        fc = (1 if self.cluster_specific else 0) | (4 if self.manuf is not None else 0)
        fc |= (8 if self.s2c else 0) | (0x10 if self.disable_dr else 0)
        out = bytes([fc])
        if self.manuf is not None:
            out += u16(self.manuf)
        return out + bytes([self.tsn, self.cmd]) + self.payload


# ZDO commands
NWK_ADDR_REQ, IEEE_ADDR_REQ, NODE_DESC_REQ, POWER_DESC_REQ = 0, 1, 2, 3
SIMPLE_DESC_REQ, ACTIVE_EP_REQ, MATCH_DESC_REQ, DEVICE_ANNCE = 4, 5, 6, 0x13
BIND_REQ, UNBIND_REQ = 0x21, 0x22
MGMT_LQI_REQ, MGMT_RTG_REQ, MGMT_BIND_REQ, MGMT_LEAVE_REQ = 0x31, 0x32, 0x33, 0x34
MGMT_PERMIT_REQ, NWK_UPDATE_REQ = 0x36, 0x38
RSP = 0x8000

SUCCESS = 0x00
ZDO_INV_REQUESTTYPE, ZDO_DEVICE_NOT_FOUND, ZDO_NOT_SUPPORTED, ZDO_NOT_ACTIVE = 0x80, 0x81, 0x84, 0x83
ZDO_TIMEOUT, ZDO_NOT_PERMITTED = 0x85, 0x8B

# ZCL general commands
READ, READ_RSP, WRITE, WRITE_UNDIV, WRITE_RSP, WRITE_NO_RSP = 0, 1, 2, 3, 4, 5
CONF_REP, CONF_REP_RSP, READ_REP_CFG, READ_REP_CFG_RSP, REPORT, DEFAULT_RSP = 6, 7, 8, 9, 0x0A, 0x0B
DISC, DISC_RSP = 0x0C, 0x0D
ZCL_UNSUP_ATTR, ZCL_FAILURE, ZCL_INVALID_VALUE, ZCL_READ_ONLY = 0x86, 0x01, 0x87, 0x88
ZCL_UNSUP_CLUSTER_CMD, ZCL_UNSUP_GENERAL, ZCL_DUPLICATE, ZCL_NOT_FOUND, ZCL_INSUFF = 0x81, 0x82, 0x8A, 0x8B, 0x89


def node_desc(logical_type, mac_caps, manuf, max_buf=82, max_in=82, server_mask=0, max_out=82, desc_caps=0,
              freq=8):
    """13 bytes."""
    b0 = (logical_type & 7)
    b1 = (freq & 0x1F) << 3
    return bytes([b0, b1, mac_caps]) + u16(manuf) + u8(max_buf) + u16(max_in) + u16(server_mask) + u16(max_out) + u8(desc_caps)


def simple_desc(ep, profile, dev_type, version, ins, outs):
    body = u8(ep) + u16(profile) + u16(dev_type) + u8(version) + u8(len(ins))
    body += b"".join(u16(c) for c in ins) + u8(len(outs)) + b"".join(u16(c) for c in outs)
    return u8(len(body)) + body
