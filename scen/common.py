"""Shared plan generators."""
from __future__ import annotations


def rates(rng, level=None):
    """Swarm style: a random subset of the fault kinds at a random intensity."""
    level = rng.choice(["none", "light", "light", "medium", "heavy"]) if level is None else level
    if level == "none":
        return {}
    hi = {"light": 0.06, "medium": 0.2, "heavy": 0.4}[level]
    kinds = ["drop_req", "drop_rsp", "dup_req", "dup_rsp", "send_err", "slow_send", "slow_rsp", "late_rsp", "early_rsp"]
    n = rng.randint(1, len(kinds))
    out = {}
    for k in rng.sample(kinds, n):
        out[k] = round(rng.uniform(0.2, 1.0) * hi, 3)
    if "send_err" in out and rng.random() < 0.4:
        out["send_err_delivered"] = 0.5
    if "send_err" in out and rng.random() < 0.3:
        out["send_weird"] = 0.5
    if "send_err" in out and rng.random() < 0.3:
        out["send_timeout"] = 0.5
    return out


def net(rng, level=None):
    return {"rates": rates(rng, level), "lat": rng.choice([[0.0, 0.0], [0.0, 0.5], [0.0, 0.25], [0.25, 2.0]]),
            "send_lat": rng.choice([[0.0, 0.0], [0.0, 0.25], [0.0, 1.0]])}


# clusters known to zigpy, picked for variety
IN_CLUSTERS = [0, 1, 3, 4, 5, 6, 8, 0x0A, 0x19, 0x20, 0x201, 0x300, 0x400, 0x402, 0x500, 0xB04, 0xFC00, 0x1234]


def basic_attrs(manuf="Acme", model="M1", extra=None):
    from sim import wire as W

    a = {}
    if manuf is not None:
        a["0:4"] = [0x42, W.lvstr(manuf).hex()]
    if model is not None:
        a["0:5"] = [0x42, W.lvstr(model).hex()]
    a.update(extra or {})
    return a


def device_spec(rng, logical=None, simple=False):
    logical = rng.choice([1, 1, 2]) if logical is None else logical
    neps = 1 if simple else rng.choice([1, 1, 2, 3])
    ids = rng.sample([1, 2, 3, 10, 11, 13, 200, 240], neps) if not simple else [1]
    eps = {}
    for i, e in enumerate(ids):
        ins = sorted(set([0] if (i == 0 or rng.random() < 0.5) else []) | set(rng.sample(IN_CLUSTERS[1:], rng.randint(1, 5))))
        if simple:
            ins = [0, 3, 4, 6]
        outs = sorted(set(rng.sample([3, 6, 8, 0x19, 0x0A], rng.randint(0, 2)))) if not simple else [0x19]
        eps[str(e)] = {
            "profile": rng.choice([0x0104, 0x0104, 0x0104, 0xC05E]) if not simple else 0x0104,
            "dev_type": rng.choice([0x0100, 0x0051, 0x0302, 0x7777]),
            "version": 1, "ins": ins, "outs": outs,
            "attrs": basic_attrs(f"Acme{rng.randint(0, 9)}", f"M{rng.randint(0, 99)}") if 0 in ins and (i == 0 or rng.random() < 0.7) else {},
        }
    return {"logical": logical, "manuf": rng.choice([0x1234, 0x115F, 0x1037]), "mac_caps": 0x80 if logical == 2 else 0x8E,
            "eps": eps, "tsn0": rng.choice([0, 253, rng.randint(0, 255)])}


def ieee_of(i):
    return 0x00158D0001000000 + 0x101 * (i + 1)


def nwk_of(i):
    return 0x1000 + 0x111 * (i + 1)


def ready_device(app, d, R):
    """A device zigpy already knows completely (no interview traffic)."""
    import zigpy.device
    import zigpy.endpoint
    import zigpy.zdo.types as zdo_t

    dev = app.add_device(R.eui(d.ieee), R.t.NWK(d.nwk))
    dev.node_desc = zdo_t.NodeDescriptor.deserialize(d.node_desc_bytes)[0]
    for eid, e in d.eps.items():
        ep = dev.add_endpoint(eid)
        ep.profile_id = e["profile"]
        ep.device_type = e["dev_type"]
        for c in e["ins"]:
            ep.add_input_cluster(c)
        for c in e["outs"]:
            ep.add_output_cluster(c)
        ep.status = zigpy.endpoint.Status.ZDO_INIT
    dev.manufacturer, dev.model = "Acme", "M1"
    dev.status = zigpy.device.Status.ENDPOINTS_INIT
    return dev
