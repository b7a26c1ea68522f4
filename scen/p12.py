"""P12: firmware transfers deliver the exact image or end with a clear status."""
import asyncio
import struct

from scen import common
from sim import wire as W
from sim.runner import Part

PROPERTY = "P12"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 200000}
BATCH = 40
REAL = ["zigpy.ota.manager", "Device.update_firmware", "Ota cluster", "response listeners", "Device.request path", "ReschedulableTimeout"]
STUBS = ["radio and the updating devices", "clock and scheduler"]
RULE = ("a run = 1..2 devices and 2..4 updates (plain, forced, of images of 60..2500 bytes, cancelled, started while one runs, with raising "
        "progress callbacks) with devices that ask for blocks of 0..255 bytes in order, backwards, shuffled or pipelined, skip or repeat "
        "the query, retry, repeat blocks, run past the end, abort, fall silent, answer late or reboot, under lossy radios; a final update "
        "without faults must succeed; distinct = distinct sequence of requests, answers and outcomes")
STATES = "(result, blocks served, device behaviour, stalled, cancelled) per update"
PROBES = ["updates", "success", "timeout", "failure", "no_image", "malformed", "aborted", "cancelled", "refused", "blocks", "progress", "exact_images",
          "forced", "reread", "reread_failed", "other"]
ASSUMPTIONS = ["an update whose device reported success may still raise if the new version cannot be read back afterwards",
               "progress = a notification or block handed to the radio successfully"]

MANUF, TYPE, OLD, NEW = 0x1234, 0x0207, 0x00000010, 0x00000100
TIMEOUT, FAILURE, MALFORMED, NO_IMAGE = 0x94, 0x01, 0x80, 0x98
STALL = 30.0


def raw_image(size, seed, manuf=MANUF, typ=TYPE, ver=NEW, hw=None):
    """The bytes of an OTA file with one element of ``size`` bytes."""
    import random

    body = random.Random(seed).randbytes(size)
    fc = 4 if hw else 0
    hl = 56 + (4 if hw else 0)
    total = hl + 6 + size
    h = struct.pack("<IHHHHHIH", 0x0BEEF11E, 0x0100, hl, fc, manuf, typ, ver, 2) + b"image".ljust(32, b"\0") + W.u32(total)
    if hw:
        h += W.u16(hw[0]) + W.u16(hw[1])
    return h + W.u16(0) + W.u32(size) + body


def behaviour(rng):
    b = {"max": rng.choice([40, 40, 48, 63, 32, 17, 255, 1 if rng.random() < 0.1 else 20, 0 if rng.random() < 0.3 else 64]),
         "order": rng.choice(["seq", "seq", "seq", "back", "shuffle"]), "window": rng.choice([1, 1, 1, 2, 4]),
         "query": rng.choice(["yes", "yes", "yes", "twice", "no"]), "gap": rng.choice([0, 0, 0.25, 2]),
         "retry": rng.choice([0, 3, 3, 6]), "wait": rng.choice([2, 5, 12]), "fields": rng.choice([0, 0, 1, 2, 3]), "hw": rng.choice([None, None, 3, 9]),
         "jitter": rng.choice([0, 0.25, 3]), "end": "ok", "version": OLD, "type": TYPE, "repeat": rng.random() < 0.2, "disable_dr": rng.random() < 0.7,
         "endretry": rng.choice([0, 2]), "reboot": rng.choice([0, 0, 8, 14, 60])}
    r = rng.random()
    if r < 0.3:
        b["end"] = rng.choice([["abort", rng.choice([0x95, 0x96, 0x99, 0x01, 0x87])], ["silent"], ["pause", rng.choice([20, 29, 31, 45])], ["past"], ["failend", rng.choice([0x96, 0x95, 0x01])]])
        b["at"] = rng.random()
    elif r < 0.4:
        b["version"] = rng.choice([NEW, NEW + 1, NEW + 2, NEW - 1])
    elif r < 0.47:
        b["type"] = TYPE + 1
    elif r < 0.52:
        b["deaf"] = True
    return b


def generate(rng, tier):
    n = rng.choice([1, 1, 2])
    cfg = {"net": common.net(rng), "n": n, "end_device": rng.random() < 0.4, "hwimg": rng.choice([None, None, None, [2, 5]])}
    if rng.random() < 0.25:
        cfg["net"]["rates"] = {}
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        d = rng.randrange(n)
        ops.append({"op": "update", "d": d, "b": behaviour(rng), "size": rng.choice([3, 60, 300, 300, 900, 2500 if rng.random() < 0.3 else 500]), "seed": rng.getrandbits(30),
                    "force": rng.random() < 0.25, "raise": rng.choice([None] * 8 + [1, 3]), "cb": rng.random() < 0.8, "dt": rng.choice([0, 0, 1, 20])})
        r = rng.random()
        if r < 0.2:
            ops.append({"op": "cancel", "d": d, "dt": rng.choice([0, 0, 0.25, 1, 5, 20])})
        elif r < 0.4:
            ops.append({"op": "second", "d": d, "dt": rng.choice([0, 0.25, 2, 8])})
        elif r < 0.55:
            ops.append({"op": "other", "d": rng.randrange(n), "dt": rng.choice([0, 1, 3])})
        if rng.random() < 0.7:
            ops.append({"op": "join", "dt": 0})
    return {"cfg": cfg, "ops": ops}


async def run(w, plan):
    from sim import radio as R
    from zigpy.ota import OtaImageWithMetadata
    from zigpy.ota.image import parse_ota_image
    from zigpy.ota.providers import BaseOtaImageMetadata

    cfg = plan["cfg"]
    radio = R.SimRadio(w, cfg["net"])
    app = await R.start_app(w, radio)
    spec = {"logical": 2 if cfg["end_device"] else 1, "mac_caps": 0x80 if cfg["end_device"] else 0x8E, "manuf": MANUF,
            "eps": {"1": {"ins": [0, 6], "outs": [0x19], "attrs": {"25:2": [0x23, W.u32(OLD).hex()]}}}}
    clean = not cfg["net"].get("rates")

    class Ota:
        """The client side of a firmware update, as a device implements it."""

        def __init__(self, sim, i):
            self.sim, self.i = sim, i
            sim.zcl_hook = self.hook
            self.task = None
            self.jobs = []
            self.b = None
            self.image = None  # bytes expected from requests made now
            self.reqs = []  # (t, tsn, offset, max, image or None)
            self.queries = {}  # tsn -> (b of the device, update of its session)
            self.ends = {}  # tsn -> (time, status, update)
            self.seen = {}  # (command, tsn) -> [(update running when zigpy got it, payload)]
            self.reread = []  # (t, version) answered
            self.waiting = {}  # tsn -> future
            self.notified = asyncio.Event()
            self.got = {}
            self.finished = None  # status reported at the end
            self.bad_ask = False
            self.update = None

        # ---- receiving
        def hook(self, tx, f, e):
            if int(tx.cluster) != 0x19 or not f.cluster_specific:
                return False
            b = W.Buf(f.payload)
            if f.cmd == 0x00:
                self.notified.set()
            elif f.cmd == 0x02:
                st = b.u8()
                w.check(f.tsn in self.queries, "unasked-answer", lambda: f"query response {tx.data.hex()} answers no query of {self.sim.name}")
                if st == 0:
                    m, ty, v, size = b.u16(), b.u16(), b.u32(), b.u32()
                    w.check(b.left == 0, "malformed-answer", lambda: tx.data.hex())
                    q = self.queries.get(f.tsn)
                    if q is not None:
                        us = self.during(1, f.tsn)
                        w.check(bool(us), "offered-without-update", lambda: f"{self.sim.name} was offered an image although no update runs")
                        us = [u for u in us if (m, ty, v, size) == (MANUF, TYPE, u.version, len(u.image))]
                        w.check(bool(us), "wrong-offer", lambda: f"{self.sim.name} was offered {(m, ty, v, size)}")
                        w.check(any(u.force or u.compatible(q[0]) for u in us), "incompatible-offer",
                                lambda: f"{self.sim.name} (version {q[0]['version']}, type {q[0]['type']}, hw {q[0]['hw']}) was offered the image")
                self.wake(f.tsn, (st,))
            elif f.cmd == 0x05:
                st = b.u8()
                reqs = [r for r in self.reqs if r[1] == f.tsn]
                w.check(bool(reqs), "unasked-block", lambda: f"block {tx.data.hex()} answers no request of {self.sim.name}")
                if st == 0:
                    m, ty, v, off = b.u16(), b.u16(), b.u32(), b.u32()
                    data = b.take(b.u8())
                    w.stats["blocks"] += 1
                    reqs = [r for r in reqs if r[2] == off]
                    w.check(bool(reqs), "unasked-block", lambda: f"block at {off} (tsn {f.tsn}) answers no request of {self.sim.name}")
                    us = self.during(3, f.tsn)
                    w.check(bool(us), "block-without-update", lambda: f"{self.sim.name} got a block although no update runs")
                    us = [u for u in us if u.image[off : off + len(data)] == data and (m, ty, v) == (MANUF, TYPE, u.version)]
                    w.check(bool(us) or not reqs, "wrong-bytes", lambda: f"{self.sim.name} got {data.hex()} ({m:#x}, {ty:#x}, {v:#x}) at offset {off}")
                    w.check(0 < len(data) <= 40 and (not reqs or len(data) <= max(r[3] for r in reqs)) and b.left == 0, "block-size",
                            lambda: f"{self.sim.name} got {len(data)} bytes at {off}, asked for {[r[3] for r in reqs]}")
                    if self.update is not None and v == self.update.version and any(r[4] is self.update for r in reqs):
                        self.got[off] = data
                        self.wake(f.tsn, (st, off, data))
                else:
                    self.wake(f.tsn, (st,))
            elif f.cmd == 0x07:
                w.check(f.tsn in self.ends, "unasked-answer", lambda: f"end response {tx.data.hex()} answers no request of {self.sim.name}")
                m, ty, v, now, at = b.u16(), b.u16(), b.u32(), b.u32(), b.u32()
                us = self.during(6, f.tsn)
                w.check(any((m, ty, v) == (MANUF, TYPE, u.version) for u in us) and now == at, "wrong-end", lambda: f"{self.sim.name}: end response {tx.data.hex()}")
                self.wake(f.tsn, (0,))
            else:
                return False
            return True

        def during(self, cmd, tsn):
            return [u for u, *_ in self.seen.get((cmd, tsn), ()) if u is not None]

        def wake(self, tsn, v):
            f = self.waiting.pop(tsn, None)
            if f is not None and not f.done():
                f.set_result(v)

        # ---- sending
        def send(self, cmd, payload):
            tsn = self.sim.next_tsn()
            fr = W.Zcl(True, False, tsn, cmd, payload, disable_dr=self.b["disable_dr"])
            return tsn, fr

        def out(self, fr):
            radio.reply(self.sim, 1, 1, 0x0104, 0x19, fr.bytes())

        async def ask(self, tsn, fr):
            fut = asyncio.get_running_loop().create_future()
            self.waiting[tsn] = fut
            self.out(fr)
            try:
                async with asyncio.timeout(self.b["wait"]):
                    return await fut
            except asyncio.TimeoutError:
                return None

        async def query(self):
            b = self.b
            hw = b["hw"]
            tsn, fr = self.send(1, W.u8(0 if hw is None else 1) + W.u16(MANUF) + W.u16(b["type"]) + W.u32(b["version"]) + (b"" if hw is None else W.u16(hw)))
            self.queries[tsn] = (b, self.update)
            return await self.ask(tsn, fr)

        async def block(self, off, size):
            b = self.b
            fl = b["fields"]
            tsn, fr = self.send(3, W.u8(fl) + W.u16(MANUF) + W.u16(TYPE) + W.u32(self.update.version) + W.u32(off) + W.u8(size)
                                + (W.u64(self.sim.ieee) if fl & 1 else b"") + (W.u16(5) if fl & 2 else b""))
            u = self.update
            self.reqs.append((w.now, tsn, off, size, u))
            return await self.ask(tsn, fr)

        async def end(self, status):
            for _ in range(1 + self.b["endretry"]):
                tsn, fr = self.send(6, W.u8(status) + W.u16(MANUF) + W.u16(TYPE) + W.u32(self.update.version))
                self.ends[tsn] = (w.now, status, self.update)
                if await self.ask(tsn, fr) is not None:
                    return

        def start(self, u, b):
            self.stop()
            self.update, self.b = u, b
            self.got = {}
            self.finished = None
            self.notified.clear()
            self.task = asyncio.create_task(self.main(u, b))

        def stop(self):
            for x in [self.task, *self.jobs]:
                if x is not None:
                    x.cancel()
            self.jobs = []

        async def main(self, u, b):
            await self.notified.wait()
            if b.get("deaf"):
                return
            await asyncio.sleep(b["jitter"])
            if b["query"] != "no":
                for _ in range(1 + b["retry"]):
                    r = await self.query()
                    if r is not None:
                        break
                else:
                    return
                if r[0] != 0:
                    return
                if b["query"] == "twice":
                    await self.query()
            size = len(u.image)
            eff = min(40, b["max"]) or 40
            todo = list(range(0, size, eff))
            stop = int(b.get("at", 2) * len(todo))
            if b["order"] == "back":
                todo.reverse()
            elif b["order"] == "shuffle":
                w.prng.shuffle(todo)
            sem = asyncio.Semaphore(b["window"])
            failed = []

            async def one(off):
                async with sem:
                    for _ in range(1 + b["retry"]):
                        if failed:
                            return
                        r = await self.block(off, b["max"])
                        if r is None:
                            continue
                        if r[0] != 0:
                            failed.append(r[0])
                            return
                        end = off + eff
                        got = len(r[2])
                        while off + got < min(end, size) and got:
                            # fewer bytes than asked for
                            r = await self.block(off + got, end - off - got)
                            if r is None or r[0] != 0:
                                failed.append("x")
                                return
                            got += len(r[2])
                        if b["repeat"] and w.dec.chance("repeat", 0.1):
                            await self.block(off, b["max"])
                        return
                    failed.append("x")

            jobs = self.jobs = []
            for i, off in enumerate(todo):
                if i == stop and b["end"] != "ok":
                    k = b["end"][0]
                    if k == "silent":
                        break
                    if k == "abort":
                        await self.end(b["end"][1])
                        return
                    if k == "pause":
                        await asyncio.sleep(b["end"][1])
                    if k == "past":
                        await self.block(size + w.dec.pick("past", 3) * 50, b["max"])
                if b["window"] == 1:
                    await one(off)
                else:
                    jobs.append(asyncio.create_task(one(off)))
                if failed:
                    break
                if b["gap"]:
                    await asyncio.sleep(b["gap"])
            for j in jobs:
                await j
            if failed or b["end"] != "ok" and b["end"][0] == "silent":
                return
            data = bytearray()
            for off in sorted(self.got):
                data[off : off + len(self.got[off])] = self.got[off]
            u.assembled = bytes(data)
            w.check(u.assembled == u.image, "image-differs", lambda: f"{self.sim.name} assembled {len(data)} bytes that are not the image of {size} bytes")
            w.stats["exact_images"] += 1
            if b["end"] != "ok" and b["end"][0] == "failend":
                await self.end(b["end"][1])
                return
            await self.end(0)
            self.sim.eps[1]["attrs"][(0x19, 2)] = (0x23, W.u32(u.version))
            if b["reboot"]:
                self.sim.online = False
                w.loop.call_later(b["reboot"], setattr, self.sim, "online", True)

    class Update:
        def __init__(self, d, op):
            self.d, self.op, self.b = d, op, op["b"]
            self.force = op["force"]
            self.hwimg = cfg["hwimg"]
            self.fver = NEW + len(allu)
            raw = raw_image(op["size"], op["seed"], hw=self.hwimg, ver=self.fver)
            img, rest = parse_ota_image(raw)
            self.foreign = False
            self.notified = False
            self.unreach = w.stats["fault_unreachable"]
            self.file = OtaImageWithMetadata(metadata=BaseOtaImageMetadata(file_version=self.fver, manufacturer_id=MANUF, image_type=TYPE), firmware=img)
            self.version = 0xFFFFFFFE if self.force else self.fver
            self.image = raw[:14] + W.u32(self.version) + raw[18:]
            self.running = True
            self.progress = []
            self.raised = False
            self.bad_ask = False
            self.dev_status = []
            self.assembled = None
            self.task = None
            self.cancelled = False
            self.t0 = w.now
            self.first_tx = len(radio.txs)
            self.first_rx = len(radio.rxs)
            self.outcome = None

        def compatible(self, b):
            if b["type"] != TYPE or b["version"] >= self.fver:
                return False
            return self.hwimg is None or (b["hw"] is not None and self.hwimg[0] <= b["hw"] <= self.hwimg[1])

        def on_progress(self, cur, total, pct):
            w.stats["progress"] += 1
            w.check(self.running, "late-progress", lambda: f"progress {cur}/{total} was reported after the update had ended")
            w.check(total == len(self.image) and abs(pct - 100 * cur / total) < 1e-6, "wrong-progress", lambda: f"progress {(cur, total, pct)} of {len(self.image)}")
            ends = set()
            for tx in radio.txs[self.first_tx :]:
                p = block_of(tx)
                if p is not None and tx.outcome == "sent" and name_of(tx) == self.d.sim.name:
                    ends.add(p[0] + p[1])
            w.check(cur in ends, "wrong-progress", lambda: f"progress {cur} but blocks sent end at {sorted(ends)[-5:]}")
            self.progress.append((w.now, cur))
            if self.op["raise"] is not None and len(self.progress) >= self.op["raise"]:
                self.raised = True
                raise RuntimeError("progress callback")

        async def main(self):
            self.d.start(self, self.b)
            try:
                res = await devs[self.d.i].update_firmware(self.file, **({"progress_callback": self.on_progress} if self.op["cb"] else {}), **({"force": True} if self.force else {}))
                self.outcome = ("result", None if res is None else int(res))
            except asyncio.CancelledError:
                self.outcome = ("cancelled",)
                if not self.cancelled:
                    w.violate("cancelled", "an update was cancelled by nobody")
            except Exception as e:  # noqa: BLE001
                self.outcome = ("raised", repr(e))
            self.running = False
            self.unreach1 = w.stats["fault_unreachable"]
            self.t1 = w.now
            w.log("update_end", self.outcome)
            self.judge()

        def judge(self):
            o = self.outcome
            n = self.d.sim.name
            w.stats["updates"] += 1
            w.stats["forced"] += self.force
            if o[0] == "cancelled":
                w.stats["cancelled"] += 1
                w.state("cancelled", min(len(self.progress), 3))
                return
            txs = [tx for tx in radio.txs[self.first_tx :] if int(tx.cluster) == 0x19 and name_of(tx) == n]
            mine = [tx for tx in txs if tx.data[0] & 3]
            prog = [tx.t1 for tx in mine if tx.outcome == "sent" and (tx.data[2] == 0 or block_of(tx))]
            ends = [tx for tx in mine if tx.data[2] == 7]
            sent_status = {}
            for tx in ends:
                if tx.outcome == "sent":
                    for u, pl, _ in self.d.seen.get((6, tx.data[1]), ()):
                        if u is self:
                            sent_status.setdefault(pl[0], tx.t1)
            sendfail = any(tx.outcome in ("failed", "no-route") for tx in mine)
            w.state(o[0], o[1] if o[0] == "result" else "", min(len(prog), 4), str(self.b["end"])[:8], self.force)
            if o[0] == "raised":
                # only the version check after a success may fail
                w.check(0 in sent_status and self.t1 - sent_status[0] >= 10, "raised", lambda: f"update of {n} raised {o[1]}; statuses {self.dev_status}")
                w.stats["reread_failed"] += 1
                w.stats["success"] += 1
                self.fresh(sent_status.get(0, 0))
                return
            st = o[1]
            w.check(st is not None, "no-status", lambda: f"update of {n} returned None")
            if st is None:
                return
            if st == 0:
                w.stats["success"] += 1
                w.check(0 in sent_status, "false-success", lambda: f"update of {n} succeeded although the device reported {self.dev_status}")
                if 0 in sent_status:
                    w.check(self.t1 - sent_status[0] < 400, "too-long", lambda: f"update of {n} returned {self.t1 - sent_status[0]} s after its success")
                self.fresh(sent_status.get(0, 0))
                return
            last = max([t for t in prog if t <= self.t1], default=None)
            if last is not None:
                w.check(self.t1 <= last + STALL + 1e-6, "too-long", lambda: f"update of {n} ended {self.t1 - last} s after its last progress with {st:#x}")
            ok = st in sent_status
            if st == TIMEOUT:
                w.stats["timeout"] += 1
                before = max([t for t in prog if t < self.t1 - 1e-6], default=None)
                ok = ok or before is not None and self.t1 >= before + STALL - 1e-6
            elif st == FAILURE:
                w.stats["failure"] += 1
                ok = ok or sendfail or self.raised
            elif st == NO_IMAGE:
                w.stats["no_image"] += 1
                ok = ok or not self.force and any(u is self and not u.compatible(self.d.queries[k[1]][0])
                                                            for k, v in self.d.seen.items() if k[0] == 1 for u, *_ in v)
            elif st == MALFORMED:
                w.stats["malformed"] += 1
                ok = ok or self.bad_ask
            else:
                w.stats["aborted"] += 1
            w.check(ok, "wrong-status", lambda: f"update of {n} ended with {st:#x}; device reported {self.dev_status}, failed sends {sendfail}, last progress {last}, now {self.t1}")
            # things that end an update at once
            for tx in mine:
                why = None
                if tx.t1 is None or tx.t1 >= self.t1 or tx.outcome == "cancelled":
                    continue
                if tx.data[2] == 2 and tx.data[3] == NO_IMAGE and self.surely(1, tx):
                    why = "it was told that there is no image"
                elif tx.data[2] == 5 and tx.data[3] != 0 and self.surely(3, tx):
                    why = "it asked for bytes outside the image"
                elif tx.outcome != "sent" and self.surely(tx.data[2] - (2 if tx.data[2] == 5 else 1), tx):
                    why = f"{tx.data.hex()} could not be sent"
                w.check(why is None, "not-ended", lambda: f"the update of {n} ended at {self.t1} although at {tx.t1} {why}")
            early = min(sent_status.values(), default=None)
            if early is not None:
                w.check(self.t1 <= early + 1e-6, "too-long", lambda: f"update of {n} ended {self.t1 - early} s after the device's status")

        def surely(self, cmd, tx):
            """All requests ``tx`` can answer came while this update was listening."""
            seen = self.d.seen.get((cmd, tx.data[1]), ())
            return bool(seen) and all(x[0] is self and x[2] for x in seen)

        def fresh(self, since):
            v = devs[self.d.i].endpoints[1].out_clusters[0x19].get(2)
            w.stats["reread"] += v is not None
            w.check(v is None or any(x == v and t > since for t, x in self.d.reread), "stale-version",
                    lambda: f"{self.d.sim.name}: current file version {v} after the update to {self.version}")

    def name_of(tx):
        d = radio.by_nwk(int(tx.dst))
        return d.name if d is not None else None

    def block_of(tx):
        if int(tx.cluster) != 0x19 or len(tx.data) < 17 or tx.data[2] != 5 or not tx.data[0] & 1 or tx.data[3] != 0:
            return None
        return int.from_bytes(tx.data[12:16], "little"), tx.data[16]

    sims = [radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), spec, f"d{i}")) for i in range(cfg["n"])]
    devs = [common.ready_device(app, s, R) for s in sims]
    otas = [Ota(s, i) for i, s in enumerate(sims)]
    current = [None] * cfg["n"]

    def on_rx(rx):
        if rx.cluster != 0x19:
            return
        o = next(o for o in otas if o.sim is rx.dev)
        f = W.Zcl.parse(rx.data)
        u = current[o.i]
        if not f.cluster_specific:
            if f.cmd == W.READ_RSP and f.payload[2] == 0:
                o.reread.append((w.now, int.from_bytes(f.payload[4:8], "little")))
            return
        if u is not None and not u.running:
            u = None
        o.seen.setdefault((f.cmd, f.tsn), []).append((u, f.payload, u is not None and u.notified))
        if u is not None and f.cmd == 6:
            u.dev_status.append((w.now, f.payload[0]))
        if u is not None and f.cmd == 1 and o.queries[f.tsn][1] is not u:
            u.foreign = True
        if u is not None and f.cmd == 3:
            off = int.from_bytes(f.payload[9:13], "little")
            if off >= len(u.image) or f.payload[13] == 0:
                u.bad_ask = True

    radio.on_rx.append(on_rx)

    def on_tx(tx):
        if int(tx.cluster) == 0x19 and tx.data[0] & 1 and tx.data[2] == 0:
            for o in otas:
                if o.sim.name == name_of(tx) and current[o.i] is not None:
                    current[o.i].notified = True

    radio.on_tx.append(on_tx)
    allu = []

    def begin(d, op):
        u = Update(otas[d], op)
        current[d] = u
        allu.append(u)
        u.task = asyncio.create_task(u.main())
        return u

    async def join(u):
        done, _ = await asyncio.wait([u.task], timeout=9000)
        w.check(bool(done), "never-ended", lambda: f"an update of {u.d.sim.name} never ended")
        if done and not u.task.cancelled() and u.task.exception() is not None:
            raise u.task.exception()

    for s in sims:
        s.report(1, 0x19, [(2, 0x23, W.u32(OLD))], lossy=False)
    await asyncio.sleep(3)

    for op in plan["ops"]:
        if op["dt"]:
            await asyncio.sleep(op["dt"])
        k = op["op"]
        d = op.get("d")
        if k == "update":
            if current[d] is not None:
                await join(current[d])
                if w.dec.chance("settle", 0.5):
                    await asyncio.sleep(1)
            begin(d, op)
        elif k == "cancel":
            u = current[d]
            if u is not None and not u.task.done():
                u.cancelled = True
                u.task.cancel()
                await asyncio.sleep(0)
        elif k == "second":
            u = current[d]
            if u is not None and u.running and not any(s == 0 for _, s in u.dev_status) and u.task is not None:
                t0 = w.now
                await asyncio.sleep(0)
                n0 = len([tx for tx in radio.txs if int(tx.cluster) == 0x19 and tx.data[2] == 0])
                if not u.running:
                    continue
                r = await devs[d].update_firmware(u.file)
                n1 = len([tx for tx in radio.txs if int(tx.cluster) == 0x19 and tx.data[2] == 0])
                w.stats["refused"] += 1
                w.check(r is None and w.now == t0 and n1 == n0, "second-update", lambda: f"a second update of {u.d.sim.name} returned {r}")
        elif k == "other":
            # a device without an update asks on its own
            o = otas[d]
            if current[d] is None or not current[d].running:
                w.stats["other"] += 1
                o.b = o.b or behaviour_default()
                tsn, fr = o.send(1, W.u8(0) + W.u16(MANUF) + W.u16(TYPE) + W.u32(OLD))
                o.queries[tsn] = (behaviour_default(), None)
                o.out(fr)
                tsn, fr = o.send(3, W.u8(0) + W.u16(MANUF) + W.u16(TYPE) + W.u32(NEW) + W.u32(0) + W.u8(40))
                o.reqs.append((w.now, tsn, 0, 40, None))
                o.out(fr)
        elif k == "join":
            for u in current:
                if u is not None:
                    await join(u)
    for u in current:
        if u is not None:
            await join(u)
    # without faults an update succeeds
    radio.faults_on = False
    await asyncio.sleep(70)
    for s in sims:
        s.online = True
    for i, d in enumerate(sims):
        b = behaviour_default()
        if cfg["hwimg"]:
            b["hw"] = cfg["hwimg"][0]
        u = begin(i, {"b": b, "size": 100, "seed": 7 + i, "force": False, "raise": None, "cb": True})
        await join(u)
        w.check(u.outcome == ("result", 0) and u.assembled == u.image, "not-updated", lambda: f"an undisturbed update of {d.name} ended with {u.outcome}")
        v = devs[i].endpoints[1].out_clusters[0x19].get(2)
        w.check(v == u.version, "stale-version", lambda: f"{d.name}: current file version {v} after an undisturbed update to {u.version}")
        w.check([c for _, c in u.progress] == list(range(40, len(u.image), 40)) + [len(u.image)], "wrong-progress", lambda: f"{u.progress}")
    if clean and not radio.cfg.get("slow_send"):
        for u in allu:
            b = u.b
            if not u.cancelled and not u.bad_ask and not u.foreign and u.unreach == u.unreach1 and b["end"] == "ok" and not b.get("deaf") and not u.raised and b["max"] and (u.force or u.compatible(b) or b["query"] == "no") \
                    and b["wait"] >= 12 and b["window"] == 1 and (b["version"] == OLD or u.force):
                w.check(u.outcome[0] == "raised" or u.outcome == ("result", 0), "not-updated", lambda: f"an undisturbed update ended with {u.outcome}: {b}")
    for o in otas:
        o.stop()
    w.sample = {"cfg": cfg, "updates": [u.outcome for u in allu]}


def behaviour_default():
    return {"max": 40, "order": "seq", "window": 1, "query": "yes", "gap": 0, "retry": 3, "wait": 25, "fields": 0, "hw": None, "jitter": 0, "end": "ok",
            "version": OLD, "type": TYPE, "repeat": False, "disable_dr": True, "endretry": 0, "reboot": 0}


PARTS = [Part("transfers", 1, generate, run, max_steps=400_000)]
