"""P19: forming, restoring and moving a network."""
import asyncio
import errno
import random

from scen import common
from sim import wire as W
from sim.core import HarnessError, frames_of
from sim.runner import Part

PROPERTY = "P19"
LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 800000}
BATCH = 50
REAL = ["zigpy.application startup, form_network, energy_scan, move_network_to_channel, permit", "zigpy.backups", "zigpy.util.pick_optimal_channel", "zigpy.config", "zigpy.appdb backup tables on SQLite"]
STUBS = ["radio library and its stored settings", "clock and scheduler", "randomness (also extreme draws)", "SQLite worker thread"]
RULE = ("a run = one network configuration (each value given or missing), a formed or unformed radio, and 4..14 operations: starts, forms, restores of good, incomplete and foreign backups, manual "
        "backups, channel moves, energy scans, radio swaps and resets, restarts from the database, with failing, slow or silent radio calls; distinct = distinct sequence of radio calls, packets and events")
STATES = "(radio call, operation, backups known, formed) at each radio call"
PROBES = ["formed", "formed_fast", "form_two_step", "restored_at_start", "kept", "not_formed", "refused", "api_form", "restored", "restore_incomplete_refused", "restore_incomplete", "backups", "moves", "move_noop",
          "move_failed", "move_silent", "scans", "scan_failed", "random_pan", "random_channel", "configured", "failed", "reopened", "slow_move", "update_id_wrap", "tweaked"]
ASSUMPTIONS = ["the radio reports an energy for each of the 16 channels or fails", "the radio stores the settings it was given"]

KINDS = ["conn", "perm", "timeout", "runtime", "delivery", "value"]
APIS = ["load_network_info", "start_network", "write_network_info", "permit_ncp", "bcast", "coord"]
KERNEL = {-2: 0.1, -1: 0.5, 0: 1.0, 1: 0.5, 2: 0.1}
PENALTY = {**{c: 3.0 for c in range(11, 27)}, 11: 2.0, 26: 2.0, 15: 1.0, 20: 1.0, 25: 1.0}


def generate(rng, tier):
    nwk = {}
    p = rng.choice([0, 0.3, 0.6])
    if rng.random() < p:
        nwk["channel"] = rng.randrange(11, 27)
    if rng.random() < 0.5:
        nwk["channels"] = sorted(rng.sample(range(11, 27), rng.choice([1, 2, 4, 9, 16])))
    if rng.random() < p:
        nwk["extended_pan_id"] = ":".join(f"{rng.randrange(256):02x}" for _ in range(8))
    if rng.random() < p:
        nwk["key"] = [rng.randrange(256) for _ in range(16)]
    if rng.random() < p:
        nwk["key_sequence_number"] = rng.randrange(256)
    if rng.random() < p:
        nwk["pan_id"] = rng.choice([1, 0x1234, 0xFFFE, "0x1A62", "0x0001"])
    if rng.random() < p:
        nwk["tc_address"] = "00:12:4b:00:aa:bb:00:09"
    if rng.random() < p / 2:
        nwk["tc_link_key"] = [rng.randrange(256) for _ in range(16)]
    if rng.random() < p:
        nwk["update_id"] = rng.choice([0, 1, 7, 253, 254, 255])
    ops = []
    for _ in range(rng.choice([4, 7, 10, 14])):
        k = rng.choice(["start"] * 4 + ["stop"] * 2 + ["form", "form", "restore", "restore", "restore", "backup", "move", "move", "move", "scan", "swap", "unform", "unform", "traffic", "energy", "kill", "tweak", "tweak", "tweak"])
        op = {"op": k, "n": rng.randrange(1 << 16), "fails": []}
        if rng.random() < 0.25:
            op["fails"] = [[rng.choice(APIS), rng.choice([0, 0, 0, 1, 2]), rng.choice(KINDS)]]
        if k in ("start", "tweak"):
            op["form"] = rng.random() < 0.75
        if k == "restore":
            op.update(inc=rng.choice([None, None, 0, 1, 500000]), allow=rng.random() < 0.4, new=rng.choice([None, True, False]), which=rng.choice(["last", "own", "crafted", "crafted", "incomplete", "incomplete"]),
                      hole=rng.choice(["ieee", "epid", "pan0", "panF", "ch0", "ch10", "ch27", "key"]))
        if k == "move":
            op.update(ch=rng.randrange(11, 27), same=rng.random() < 0.12, nb=rng.choice([None, None, 1, 2, 3, 9]), delay=rng.choice([0, 0, 0.3, 2.2, 7.9, 40.4]), silent=rng.random() < 0.1, load_fail=rng.random() < 0.08)
        if k == "scan":
            op["silent"] = rng.random() < 0.2
        if k == "form":
            op["fast"] = rng.random() < 0.3
        if k == "energy":
            op["e"] = {str(c): rng.choice([0, 0, 20, 80, 255, rng.randrange(256)]) for c in range(11, 27)}
        ops.append(op)
    if rng.random() < 0.5:
        ops.insert(0, {"op": "start", "n": 0, "fails": [], "form": True})
    return {"cfg": {"nwk": nwk, "db": rng.random() < 0.5, "validate": rng.random() < 0.5, "formed": rng.random() < 0.5, "edge": rng.random() < 0.3,
                    "net": {"api_lat": rng.choice([0, 0, 0.5]), "send_lat": rng.choice([[0.0, 0.0], [0.0, 0.5]]), "lat": [0.0, 0.0], "inplace": rng.random() < 0.3}}, "ops": ops}


class EdgeRandom(random.Random):
    """Entropy with many extreme 16-bit draws."""

    def getrandbits(self, k):
        if 8 < k <= 17 and super().random() < 0.5:
            return max(0, (1 << k) - 1 - int(super().random() * 4)) if super().random() < 0.7 else int(super().random() * 3)
        return super().getrandbits(k)

    def randbytes(self, n):
        if n == 2:
            return self.getrandbits(16).to_bytes(2, "little")
        return super().randbytes(n)


async def run(w, plan):
    import resource

    with open("/proc/self/statm") as f:
        vm = int(f.read().split()[0]) * resource.getpagesize()
    old = resource.getrlimit(resource.RLIMIT_AS)
    # a small machine: nothing here needs more than a few hundred megabytes
    resource.setrlimit(resource.RLIMIT_AS, (vm + (600 << 20), old[1]))
    try:
        await _run(w, plan)
    finally:
        resource.setrlimit(resource.RLIMIT_AS, old)


async def _run(w, plan):
    import copy

    from sim import radio as R, storage
    import zigpy.backups
    import zigpy.config as conf
    import zigpy.exceptions as ze
    t = R.t

    cfg = plan["cfg"]
    radio = R.SimRadio(w, {**cfg["net"], "formed": cfg["formed"], "rates": {}})
    storage.attach(w)
    if cfg["edge"]:
        w.prng = EdgeRandom(w.prng.getrandbits(64))
    nwk = cfg["nwk"]
    config = R.base_config(**{conf.CONF_DATABASE: f"{w.scratch}/z.db" if cfg["db"] else None, conf.CONF_NWK_VALIDATE_SETTINGS: cfg["validate"], conf.CONF_NWK: copy.deepcopy(nwk)})
    mask = nwk.get("channels", [11, 15, 20, 25])
    st = {"app": None, "running": False, "op": "none", "latest": None, "kept": None, "identity": None, "count": 0}
    gate = {"bcast": [], "coord": []}
    lat = cfg["net"]["api_lat"]

    class App(R.SimApp):
        sim_radio = radio

    def make(kind):
        return {"conn": lambda: ConnectionError("no"), "perm": lambda: OSError(errno.EACCES, "denied"), "timeout": lambda: asyncio.TimeoutError(), "runtime": lambda: RuntimeError("boom"),
                "delivery": lambda: ze.DeliveryError("no", status=0xE9), "value": lambda: ValueError("odd")}[kind]()

    async def send_gate(packet, tx):
        which = "bcast" if tx.dst_mode == t.AddrMode.Broadcast else "coord" if int(tx.cluster) == W.NWK_UPDATE_REQ and int(tx.dst) == 0 else None
        lst = gate.get(which)
        exc = lst.pop(0) if lst else None
        if exc is not None:
            w.stats["fault_send_" + which] += 1
            raise exc

    radio.send_gate = send_gate
    real_api = radio.api

    async def api(name):
        w.state(name, st["op"], st["latest"] is not None, radio.net is not None)
        await real_api(name)

    radio.api = api

    move = {"delay": 0, "silent": False, "applied": None, "coord": []}

    def coord_zdo(tx, tsn, c, b, bcast):
        if c != W.NWK_UPDATE_REQ:
            return False
        data = bytes(tx.data)
        if data[5] != 0xFE:
            return bool(move["silent"])
        ch = next((x for x in range(11, 27) if int.from_bytes(data[1:5], "little") >> x & 1), None)
        uid = data[6]
        move["coord"].append((w.now, data))

        def apply():
            if radio.net is not None:
                radio.net = radio.net.replace(channel=t.uint8_t(ch), channel_mask=t.Channels.from_channel_list([ch]), nwk_update_id=t.uint8_t(uid))
                move["applied"] = w.now

        if move["delay"]:
            w.loop.call_later(move["delay"], apply)
        else:
            apply()
        if not move["silent"]:
            radio.coord.rsp(tx, W.u8(tsn) + W.u8(0) + data[1:5] + W.u16(0) + W.u16(0) + W.u8(0))
        return True

    radio.coord.zdo_hook = coord_zdo

    def snap(net, node):
        if net is None:
            return None
        k, tk = net.network_key, net.tc_link_key
        return {"epid": str(net.extended_pan_id), "pan": int(net.pan_id), "uid": int(net.nwk_update_id), "mgr": int(net.nwk_manager_id), "ch": int(net.channel), "mask": int(net.channel_mask), "sec": int(net.security_level),
                "key": bytes(k.key.serialize()).hex(), "tx": int(k.tx_counter), "seq": int(k.seq), "tck": bytes(tk.key.serialize()).hex(), "tca": str(tk.partner_ieee),
                "kt": [(str(x.partner_ieee), bytes(x.key.serialize()).hex(), int(x.tx_counter)) for x in net.key_table], "ch_": [str(c) for c in net.children], "na": sorted((str(a), int(b)) for a, b in net.nwk_addresses.items()),
                "stack": dict(net.stack_specific), "nwk": int(node.nwk), "ieee": str(node.ieee), "type": int(node.logical_type)}

    def hw():
        return snap(radio.net, radio.node)

    def bk(b):
        return None if b is None else snap(b.network_info, b.node_info)

    SAME = ("nwk", "type", "ieee", "epid", "pan", "uid", "mgr", "ch", "sec", "tck", "key")

    def compatible(a, b):
        return all(a[k] == b[k] for k in SAME)

    def complete(x):
        return x["ieee"] != "ff:ff:ff:ff:ff:ff:ff:ff" and x["epid"] != "ff:ff:ff:ff:ff:ff:ff:ff" and x["pan"] not in (0, 0xFFFF) and 11 <= x["ch"] <= 26 and x["key"] != "ff" * 16

    def diff(a, b):
        return {k: (a[k], b[k]) for k in a if a[k] != b.get(k)}

    def scores():
        e = {c: float(radio.energy.get(c, 80)) for c in range(11, 27)}
        if st["silent_scan"]:
            e = {c: 0.0 for c in e}
        at = lambda c: e[min(26, max(11, c))]  # noqa: E731
        return {c: (1 + e[c] + sum(KERNEL[j] * at(c + j) for j in KERNEL)) * PENALTY[c] for c in e}

    def check_formed(wnet, wnode, fast):
        """The settings written when forming."""
        x = snap(wnet, wnode)
        w.check(x["nwk"] == 0 and x["type"] == 0 and x["ieee"] == "ff:ff:ff:ff:ff:ff:ff:ff", "node", lambda: f"the coordinator is written as {x['nwk']:#06x} {x['ieee']} type {x['type']}")
        w.check(x["sec"] == 5 and x["mgr"] == 0 and x["tx"] == 0 and not x["kt"] and not x["ch_"] and not x["na"], "settings", lambda: f"a new network is written as {x}")
        w.check(bool(x["stack"].get("form_quickly")) == fast, "quick-flag", lambda: f"form_quickly is {x['stack']} for a {'temporary' if fast else 'real'} network")
        if "pan_id" in nwk:
            v = int(nwk["pan_id"], 0) if isinstance(nwk["pan_id"], str) else nwk["pan_id"]
            w.check(x["pan"] == v, "configured-ignored", lambda: f"PAN id {x['pan']:#06x} instead of the configured {v:#06x}")
        else:
            w.stats["random_pan"] += 1
            w.check(1 <= x["pan"] <= 0xFFFE, "unusable-pan", lambda: f"PAN id {x['pan']:#06x} was chosen")
        if "extended_pan_id" in nwk:
            w.check(x["epid"] == nwk["extended_pan_id"], "configured-ignored", lambda: f"extended PAN id {x['epid']} instead of {nwk['extended_pan_id']}")
        else:
            w.check(x["epid"] not in seen_epids, "epid-reused", lambda: f"the random extended PAN id {x['epid']} was used before")
            seen_epids.add(x["epid"])
        if "key" in nwk:
            w.check(x["key"] == bytes(nwk["key"]).hex(), "configured-ignored", lambda: f"network key {x['key']} instead of the configured one")
        else:
            w.check(x["key"] not in seen_keys and x["key"] not in ("00" * 16, "ff" * 16), "key-reused", lambda: f"the random network key {x['key']} was used before")
            seen_keys.add(x["key"])
        w.check(x["seq"] == nwk.get("key_sequence_number", 0), "configured-ignored", lambda: f"key sequence number {x['seq']}")
        w.check(x["uid"] == nwk.get("update_id", 0), "configured-ignored", lambda: f"update id {x['uid']}")
        w.check(x["tck"] == (bytes(nwk["tc_link_key"]) if "tc_link_key" in nwk else b"ZigBeeAlliance09").hex(), "configured-ignored", lambda: f"trust center link key {x['tck']}")
        w.check(x["tca"] == nwk.get("tc_address", "ff:ff:ff:ff:ff:ff:ff:ff"), "configured-ignored", lambda: f"trust center address {x['tca']}")
        w.check(x["mask"] == 1 << x["ch"], "channel-mask", lambda: f"channel {x['ch']} with mask {x['mask']:#x}")
        w.stats["configured"] += len(nwk) > 3
        if "channel" in nwk:
            w.check(x["ch"] == nwk["channel"], "configured-ignored", lambda: f"channel {x['ch']} instead of the configured {nwk['channel']}")
        else:
            w.check(x["ch"] in mask, "channel-not-allowed", lambda: f"channel {x['ch']} is not in {mask}")
            if not fast:
                w.stats["random_channel"] += 1
                sc = scores()
                best = min(sc[c] for c in mask)
                w.check(x["ch"] in mask and sc[x["ch"]] <= best * (1 + 1e-9) + 1e-9, "channel-not-optimal", lambda: f"channel {x['ch']} scores {sc[x['ch']]:.2f}, the best of {mask} scores {best:.2f}")

    seen_epids, seen_keys = set(), set()

    def arm(op):
        radio.fail.clear()
        for g in gate.values():
            g.clear()
        out = []
        for a, k, kind in op["fails"]:
            exc = make(kind)
            lst = gate[a] if a in gate else radio.fail.setdefault(a, [])
            while len(lst) <= k:
                lst.append(None)
            lst[k] = exc
            out.append((a, kind, exc))
        return out

    def disarm():
        radio.fail.clear()
        for g in gate.values():
            g.clear()

    async def bounded(coro, what, limit):
        task = asyncio.ensure_future(coro)
        done, _ = await asyncio.wait([task], timeout=limit)
        if not done:
            w.violate("stuck", f"{what} has not returned after {limit} s")
            task.cancel()
            await asyncio.wait([task], timeout=10)
            return None, RuntimeError("stuck")
        return (None, task.exception()) if task.exception() is not None else (task.result(), None)

    def hit(injected, scan_ok=True):
        """Injected failures that were raised and that the operation does not tolerate."""
        return [e for e in injected if e[2].__traceback__ is not None and not (scan_ok and e[0] == "coord" and e[1] in ("timeout", "delivery"))]

    def failed(what, exc, bad, transient=False):
        """The operation failed: only an injected failure may be the reason."""
        w.stats["failed"] += 1
        if not bad:
            w.violate("failed", f"{what} failed without a reason: {frames_of(exc)[1]}")
            return
        want = bad[0][2]
        if transient and bad[0][1] == "conn":
            w.check(isinstance(exc, ze.TransientConnectionError) and exc.__cause__ is want, "wrong-error", lambda: f"{what}: {bad[0][:2]} raised {exc!r}")
        else:
            w.check(exc is want, "wrong-error", lambda: f"{what}: {bad[0][:2]} raised {exc!r}")

    def top():
        return bk(st["app"].backups.most_recent_backup())

    def expect_latest(what, created, quiet=False):
        """The latest backup is the radio's state if one was due, else what it was."""
        if st["app"] is None:
            return
        have = top()
        if created and complete(hw()):
            w.check(have is not None and not diff(have, hw()), "not-backed-up", lambda: f"after {what} the latest backup differs from the radio's settings: {diff(have, hw()) if have else 'there is none'}")
        else:
            w.check(have == st["latest"], "backup-changed", lambda: f"after {what} the latest backup changed: {diff(have, st['latest']) if have and st['latest'] else (have, st['latest'])}")
        st["latest"] = have

    def adopt():
        """After a failure either nothing or the radio's state was backed up."""
        have = top()
        if have != st["latest"]:
            w.check(hw() is not None and have is not None and not diff(have, hw()), "backup-changed", lambda: f"the latest backup is neither the old one nor the radio's settings: {have}")
        st["latest"] = have

    async def new_app():
        app = await App.new(config, start_radio=False)
        if cfg["db"] and st["count"]:
            w.stats["reopened"] += 1
            have = bk(app.backups.most_recent_backup())
            want = st["latest"]
            if have is not None and want is not None:
                have, want = dict(have), dict(want)
                for k in ("stack",):
                    have.pop(k), want.pop(k)
            w.check(have == want, "backup-lost", lambda: f"the latest backup after a restart is {diff(have, want) if have and want else (have, want)}")
        elif not cfg["db"]:
            st["latest"] = None
        st["count"] += 1
        st["app"] = app

    async def op_start(op):
        if st["app"] is None:
            await new_app()
        app = st["app"]
        if radio.net is not None and int(radio.node.nwk) and not (cfg["validate"] and st["latest"] is not None):
            # this would be started, but nothing works with such an address
            radio.node = radio.node.replace(nwk=t.NWK(0))
        pre, prior, nw = hw(), st["latest"], len(radio.writes)
        st["silent_scan"] = False
        inj = arm(op)
        _, exc = await bounded(app.startup(**({"auto_form": True} if op["form"] else {})), "the start", 400)
        st["silent_scan"] = any(e[0] == "coord" and e[2].__traceback__ is not None for e in inj)
        disarm()
        bad = hit(inj)
        writes = radio.writes[nw:]
        real = [x for x in writes if not x[0].stack_specific.get("form_quickly")]
        if exc is None:
            st["running"], st["identity"] = True, str(radio.node.ieee)
            w.check(not bad, "failure-ignored", lambda: f"{bad[0][:2]} failed but the start succeeded")
        if pre is not None:
            w.check(not writes, "overwritten", lambda: f"starting a formed radio wrote settings: {snap(*writes[0])}")
        elif not op["form"]:
            w.check(not writes, "formed-unasked", "starting an unformed radio wrote settings though forming was not asked for")
        elif prior is not None:
            w.check(len(writes) <= 1, "written-twice", lambda: f"restoring wrote settings {len(writes)} times")
            for x in writes[:1]:
                d = diff({**prior, "tx": prior["tx"] + 10000}, snap(*x))
                w.check(not d, "restored-differently", lambda: f"the restored settings differ from the backup: {d}")
        else:
            for x in writes:
                check_formed(*x, fast=bool(x[0].stack_specific.get("form_quickly")))
            w.check(len(real) <= 1 and len(writes) <= 2, "written-twice", lambda: f"forming wrote settings {len(writes)} times, {len(real)} of them for real")
            w.stats["form_two_step"] += len(writes) == 2
        if exc is None:
            w.check(app.state.network_info.channel == radio.net.channel and app.state.network_info.extended_pan_id == radio.net.extended_pan_id, "state", "the application's network state is not the radio's")
            if pre is not None:
                w.stats["kept"] += 1
                w.check(not (cfg["validate"] and prior is not None and not compatible(pre, prior)), "inconsistent-accepted", lambda: f"settings contradicting the latest backup were accepted: {diff(pre, prior)}")
                expect_latest("the start", False)
            else:
                w.check(op["form"], "formed-unasked", "an unformed radio was started")
                # a backup of a temporary network is restored as such
                w.check(len(writes if prior is not None else real) == 1, "not-written", lambda: f"{len(writes)} networks were written, {len(real)} of them for real")
                w.stats["restored_at_start" if prior is not None else "formed"] += 1
                expect_latest("the start", True)
        else:
            if isinstance(exc, ze.NetworkNotFormed) and pre is None and not op["form"] and not bad:
                w.stats["not_formed"] += 1
            elif isinstance(exc, ze.NetworkSettingsInconsistent) and not bad:
                w.stats["refused"] += 1
                w.check(cfg["validate"] and pre is not None and prior is not None and not compatible(pre, prior), "refused", lambda: f"settings were refused: {diff(pre, prior) if pre and prior else (pre, prior)}")
            else:
                failed("the start", exc, bad, transient=True)
            adopt()
            st["running"] = False

    async def op_form(op):
        app = st["app"]
        nw = len(radio.writes)
        inj = arm(op)
        w.stats["api_form"] += 1
        _, exc = await bounded(app.form_network(fast=op["fast"]) if op["fast"] else app.form_network(), "forming", 400)
        st["silent_scan"] = any(e[0] == "coord" and e[2].__traceback__ is not None for e in inj)
        disarm()
        bad = hit(inj)
        writes = radio.writes[nw:]
        for x in writes:
            check_formed(*x, fast=bool(x[0].stack_specific.get("form_quickly")))
        real = [x for x in writes if not x[0].stack_specific.get("form_quickly")]
        if exc is None:
            w.check(not bad, "failure-ignored", lambda: f"{bad[0][:2]} failed but forming succeeded")
            if op["fast"]:
                w.stats["formed_fast"] += 1
                w.check(len(writes) == 1 and not real, "not-written", "a temporary network must be written once")
                expect_latest("forming a temporary network", False)
            else:
                w.check(len(real) == 1 and writes[-1] is real[0], "not-written", lambda: f"{len(real)} networks were written")
                expect_latest("forming", True)
        else:
            failed("forming", exc, bad)
            adopt()

    async def op_restore(op):
        app = st["app"]
        if op["which"] == "last" and app.backups.most_recent_backup() is not None:
            b = app.backups.most_recent_backup()
        elif op["which"] == "own" and radio.net is not None:
            b = zigpy.backups.NetworkBackup(network_info=copy.deepcopy(radio.net), node_info=copy.deepcopy(radio.node))
        else:
            net, node = R.default_network({"epid": 0x2200 + op["n"], "pan_id": 1 + op["n"] % 0xFFFE, "key": f"{op['n'] + 7:032x}", "channel": 11 + op["n"] % 16, "update_id": op["n"] % 256, "tx_counter": op["n"] * 3})
            if op["which"] == "incomplete":
                h = op["hole"]
                if h == "ieee":
                    node = node.replace(ieee=t.EUI64.UNKNOWN)
                elif h == "epid":
                    net = net.replace(extended_pan_id=t.ExtendedPanId.convert("ff:ff:ff:ff:ff:ff:ff:ff"))
                elif h in ("pan0", "panF"):
                    net = net.replace(pan_id=t.PanId(0 if h == "pan0" else 0xFFFF))
                elif h == "key":
                    net = net.replace(network_key=net.network_key.replace(key=t.KeyData(b"\xff" * 16)))
                else:
                    net = net.replace(channel=t.uint8_t(int(h[2:])), channel_mask=t.Channels.NO_CHANNELS)
            b = zigpy.backups.NetworkBackup(network_info=net, node_info=node)
        before = bk(b)
        kw = {}
        if op["inc"] is not None:
            kw["counter_increment"] = op["inc"]
        if op["allow"]:
            kw["allow_incomplete"] = True
        if op["new"] is not None:
            kw["create_new"] = op["new"]
        inj = arm(op)
        nw = len(radio.writes)
        _, exc = await bounded(app.backups.restore_backup(b, **kw), "restoring", 100)
        disarm()
        bad = hit(inj)
        writes = radio.writes[nw:]
        w.check(before == bk(b), "backup-modified", lambda: f"restoring modified the backup: {diff(before, bk(b))}")
        if not complete(before) and not op["allow"]:
            w.stats["restore_incomplete_refused"] += 1
            w.check(isinstance(exc, ValueError) and not bad and not writes, "incomplete-restored", lambda: f"an incomplete backup ({op['hole']}) was not refused: {exc!r}, {len(writes)} writes")
            return
        w.check(len(writes) <= 1, "written-twice", "restoring wrote the settings twice")
        for x in writes[:1]:
            d = diff({**before, "tx": before["tx"] + (10000 if op["inc"] is None else op["inc"])}, snap(*x))
            w.check(not d, "restored-differently", lambda: f"the restored settings differ from the backup: {d}")
        if exc is None:
            w.check(not bad and len(writes) == 1, "failure-ignored", lambda: f"restoring succeeded with {len(writes)} writes and failures {[e[:2] for e in bad]}")
            w.stats["restored" if complete(before) else "restore_incomplete"] += 1
            expect_latest("restoring", op["new"] is not False)
        else:
            failed("restoring", exc, bad)
            adopt()

    async def op_move(op):
        app = st["app"]
        if radio.net is None or app.state.network_info.channel not in range(11, 27):
            return
        cur = int(app.state.network_info.channel)
        uid = int(app.state.network_info.nwk_update_id)
        ch = cur if op["same"] else op["ch"]
        nb = 5 if op["nb"] is None else op["nb"]
        if ch != cur and uid == 254:
            w.stats["update_id_wrap"] += 1
        move.update(delay=op["delay"], silent=op["silent"], applied=None, coord=[])
        t0, ntx = w.now, len(radio.txs)
        inj = arm(op)
        if op["load_fail"]:
            exc = make("runtime")
            radio.fail["load_network_info"] = [None, exc]
            inj.append(("load_network_info", "runtime", exc))
        kw = {} if op["nb"] is None else {"num_broadcasts": op["nb"]}
        _, exc = await bounded(app.move_network_to_channel(ch, **kw), "the channel move", 200)
        disarm()
        move["silent"] = False
        bad = hit(inj, scan_ok=False)
        txs = radio.txs[ntx:]
        want = W.u32(1 << ch) + bytes([0xFE, (uid + 1) % 255])
        bc = [x for x in txs if x.dst_mode == t.AddrMode.Broadcast]
        uni = [x for x in txs if x.dst_mode != t.AddrMode.Broadcast]
        if ch == cur:
            w.stats["move_noop"] += 1
            w.check(exc is None and not txs, "moved-to-same", f"moving to the current channel sent {len(txs)} packets, raised {exc!r}")
            return
        for x in txs:
            w.check(bytes(x.data[1:]) == want and int(x.cluster) == W.NWK_UPDATE_REQ, "move-packet", lambda: f"moving from {cur} to {ch} with update id {uid} sent {bytes(x.data[1:]).hex()} on cluster {int(x.cluster):#06x}")
        for x in bc:
            w.check(int(x.dst) == 0xFFFF, "move-packet", lambda: f"the move was broadcast to {x.dst}")
        for a, b in zip(bc, bc[1:]):
            w.check(b.t0 - a.t0 >= 0.99, "move-burst", f"two broadcasts within {b.t0 - a.t0:.2f} s")
        w.check(len(bc) <= nb and len(uni) <= 1, "move-packet", f"the move sent {len(bc)} broadcasts and {len(uni)} requests, {nb} and 1 were asked for")
        if exc is None:
            w.stats["moves"] += 1
            w.check(not bad, "failure-ignored", lambda: f"{bad[0][:2]} failed but the move succeeded")
            w.check(len(bc) == nb and len(uni) == 1, "move-packet", f"the move sent {len(bc)} broadcasts and {len(uni)} requests, {nb} and 1 were asked for")
            w.check(not uni or not bc or uni[0].t0 >= bc[-1].t0, "move-order", "the coordinator moved before the last broadcast")
            w.check(int(radio.net.channel) == ch and int(app.state.network_info.channel) == ch, "move-early", lambda: f"the move returned while the radio was on channel {int(radio.net.channel)}, the state says {app.state.network_info.channel}")
            if move["applied"] is not None:
                w.check(w.now - max(move["applied"], uni[0].t0) <= 4 + 2 * lat, "move-late", lambda: f"the move returned {w.now - move['applied']:.1f} s after the radio had moved")
                w.stats["slow_move"] += move["delay"] > 1
        elif op["silent"] and isinstance(exc, asyncio.TimeoutError):
            w.stats["move_silent"] += 1
        else:
            w.stats["move_failed"] += 1
            failed("the move", exc, bad)
            if bad and bad[0][0] == "bcast":
                w.check(not uni, "move-order", "the coordinator was moved though a broadcast had failed")
        await asyncio.sleep(60.0003)  # a late channel change of the radio
        if radio.net is not None and radio.net.channel != app.state.network_info.channel:
            await app.load_network_info()

    async def op_scan(op):
        app = st["app"]
        chans = [c for c in range(11, 27) if op["n"] >> (c - 11) & 1] or list(range(11, 27))
        inj = arm(op)
        move["silent"] = op["silent"]
        res, exc = await bounded(app.energy_scan(channels=t.Channels.from_channel_list(chans), duration_exp=op["n"] % 5, count=1), "the energy scan", 60)
        disarm()
        move["silent"] = False
        bad = hit(inj)
        ran = any(e[2].__traceback__ is not None for e in inj)
        if exc is not None:
            failed("the energy scan", exc, bad)
            return
        w.check(not bad, "failure-ignored", lambda: f"{bad[0][:2]} failed but the scan succeeded")
        lost = op["silent"] or ran
        w.stats["scan_failed" if lost else "scans"] += 1
        # no scan result stands for a silent band
        want = {c: (0 if lost else radio.energy.get(c, 80)) for c in chans}
        got = {int(k): int(v) for k, v in res.items()}
        w.check(got == want, "scan-result", lambda: f"the energy scan of {chans} returned {got}, expected {want}")

    st["silent_scan"] = False
    for op in plan["ops"]:
        k = op["op"]
        if st["app"] is not None:
            b = st["app"].backups.most_recent_backup()
            st["kept"] = copy.deepcopy((b.network_info, b.node_info)) if b is not None else None
        st["op"] = k
        w.log("op", k)
        if k == "start":
            if not st["running"]:
                await op_start(op)
        elif k in ("stop", "kill"):
            app = st["app"]
            if app is not None and (k == "kill" or st["running"]):
                await app.shutdown()
                st["running"] = False
                if cfg["db"] or k == "kill":
                    st["app"] = None
        elif k == "swap":
            if not st["running"]:
                radio.net, radio.node = R.default_network({"epid": 0x1100 + op["n"], "pan_id": 0x1000 + op["n"] % 1000, "key": f"{op['n']:032x}", "channel": 11 + op["n"] % 16})
                if op["n"] % 2:
                    radio.net = radio.net.replace(channel_mask=t.Channels.ALL_CHANNELS)
        elif k == "tweak":
            # the radio differs from the latest backup in one thing
            if st["running"]:
                await st["app"].shutdown()
                st["running"] = False
                if cfg["db"]:
                    st["app"] = None
            if st["kept"] is not None:
                net, node = copy.deepcopy(st["kept"])
                key, tck = net.network_key, net.tc_link_key
                x = op["n"] >> 4
                radio.net, radio.node = [
                    lambda: (net.replace(pan_id=t.PanId(1 + x)), node),
                    lambda: (net.replace(nwk_update_id=t.uint8_t((int(net.nwk_update_id) + 1 + x % 250) % 255)), node),
                    lambda: (net, node.replace(ieee=R.eui(0x00124B0011220000 + x))),
                    lambda: (net, node.replace(nwk=t.NWK(x))),
                    lambda: (net, node.replace(logical_type=R.zdo_t.LogicalType.Router)),
                    lambda: (net.replace(extended_pan_id=t.ExtendedPanId(R.eui(x + 1))), node),
                    lambda: (net.replace(nwk_manager_id=t.NWK(x)), node),
                    lambda: (net.replace(channel=t.uint8_t(11 + x % 16)), node),
                    lambda: (net.replace(security_level=t.uint8_t(x % 8)), node),
                    lambda: (net.replace(tc_link_key=tck.replace(key=t.KeyData(x.to_bytes(16, "little")))), node),
                    lambda: (net.replace(network_key=key.replace(key=t.KeyData(x.to_bytes(16, "little")))), node),
                    lambda: (net.replace(network_key=key.replace(tx_counter=t.uint32_t(max(0, key.tx_counter + x - 2000)))), node),
                    lambda: (net.replace(network_key=key.replace(seq=t.uint8_t(x % 256), rx_counter=t.uint32_t(x))), node),
                    lambda: (net.replace(tc_link_key=tck.replace(partner_ieee=R.eui(x), tx_counter=t.uint32_t(x))), node),
                    lambda: (net.replace(channel_mask=t.Channels(x << 11)), node),
                    lambda: (net.replace(source="other", metadata={"x": x}), node.replace(version="2", model="m")),
                ][op["n"] % 16]()
                w.stats["tweaked"] += 1
            await op_start(op)
        elif k == "unform":
            if not st["running"]:
                radio.net = None
        elif k == "traffic":
            if radio.net is not None:
                key = radio.net.network_key
                radio.net = radio.net.replace(network_key=key.replace(tx_counter=t.uint32_t(key.tx_counter + op["n"])))
        elif k == "energy":
            radio.energy = {int(c): e for c, e in op["e"].items()}
        elif not st["running"]:
            continue
        elif k == "form":
            await op_form(op)
            if st["identity"] != hw()["ieee"]:
                # another coordinator
                await st["app"].shutdown()
                st["running"], st["app"] = False, None
        elif k == "restore":
            await op_restore(op)
            if radio.net is None or not complete(hw()) or st["identity"] != hw()["ieee"]:
                # no network to go on with, or another coordinator
                await st["app"].shutdown()
                st["running"], st["app"] = False, None
        elif k == "move":
            await op_move(op)
        elif k == "scan":
            await op_scan(op)
        elif k == "backup":
            inj = arm(op)
            _, exc = await bounded(st["app"].backups.create_backup(), "the backup", 60)
            disarm()
            if exc is None:
                w.stats["backups"] += 1
                expect_latest("the backup", True)
            else:
                failed("the backup", exc, hit(inj))
                expect_latest("the failed backup", False)
        else:
            raise HarnessError(k)
        await asyncio.sleep(1.0001)
    w.sample = {"config": nwk, "operations": [o["op"] for o in plan["ops"]], "radio": {k: v for k, v in (hw() or {}).items() if k in ("pan", "ch", "uid", "tx")}}
    if st["app"] is not None:
        await st["app"].shutdown()


PARTS = [Part("settings", 1, generate, run, max_steps=200_000)]
