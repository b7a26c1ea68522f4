"""P28: a quirk takes over its device without losing it."""
import asyncio

from scen import common, persist
from sim import wire as W
from sim.runner import Part

PROPERTY = "P28"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 80000}
BATCH = 25
REAL = ["quirks v1 (CustomDevice, CustomEndpoint, CustomCluster)", "quirks v2 (QuirkBuilder, CustomDeviceV2)", "DeviceRegistry",
        "ControllerApplication", "Device interview, Endpoint, Cluster", "PersistingListener over real SQLite files"]
STUBS = ["radio and devices", "clock and scheduler", "SQLite thread (operations run in the loop)"]
RULE = ("a run = one or two generated quirks (v1 or v2; added, removed and replaced clusters in both directions, constant attributes, "
        "manufacturer codes, node descriptors, filters), 1..3 devices that match or nearly match, and 3..20 reports, reads, writes, "
        "commands, reporting configurations, clears, rejoins, address changes and restarts under message faults; "
        "distinct = distinct event sequence")
STATES = "per device (tracked class, initialized, endpoints, cached values) when time advances"
PROBES = ["takeovers", "lookalikes", "const_reads", "manuf_frames", "restarts", "reports_checked", "reads_ok"]
ASSUMPTIONS = ["a quirk's classes behave as zigpy's own", "devices keep their descriptors and model",
               "at most one quirk matches a device"]

MENU = {}
CODES = {"OnOffC": 6, "OnOffM": 6, "LevelC": 8, "TempC": 0x402, "ManufC": 0xFC11, "OnOffStd": 6}
CONST = {"LevelC": {0xF020: 7}}
# attributes of each menu class: id -> (type id, manufacturer specific)
ATTRS = {
    "OnOffC": {0: (0x10, False), 0xF010: (0x21, True), 0xF011: (0x20, False), 0xF012: (0x20, False)},
    "OnOffM": {0: (0x10, False), 0xF010: (0x21, True)},
    "OnOffStd": {0: (0x10, False)},
    "LevelC": {0: (0x20, False), 0xF020: (0x20, False), 0xF021: (0x21, True)},
    "TempC": {0: (0x29, False), 0xF030: (0x21, True)},
    "ManufC": {0: (0x20, False), 1: (0x21, False)},
}
PLAIN = {0: {0x4000: (0x42, False), 7: (0x30, False)}, 1: {0x21: (0x20, False)}, 3: {0: (0x21, False)}, 6: {0: (0x10, False)}, 8: {0: (0x20, False)},
         0x402: {0: (0x29, False)}, 0xFC11: {}}


def menu():
    if MENU:
        return MENU
    import zigpy.types as t
    from zigpy.quirks import CustomCluster
    from zigpy.zcl.clusters.general import LevelControl, OnOff
    from zigpy.zcl.clusters.measurement import TemperatureMeasurement
    from zigpy.zcl.foundation import BaseAttributeDefs, BaseCommandDefs, ZCLAttributeDef as A, ZCLCommandDef as C

    class OnOffC(CustomCluster, OnOff):
        class AttributeDefs(OnOff.AttributeDefs):
            vm = A(id=0xF010, type=t.uint16_t, is_manufacturer_specific=True)
            vp = A(id=0xF011, type=t.uint8_t)
            vq = A(id=0xF012, type=t.uint8_t)

        class ServerCommandDefs(OnOff.ServerCommandDefs):
            vcmd = C(id=0xC0, schema={"x": t.uint8_t}, direction=False, is_manufacturer_specific=True)

    class OnOffM(CustomCluster, OnOff):
        class AttributeDefs(OnOff.AttributeDefs):
            vm = A(id=0xF010, type=t.uint16_t, is_manufacturer_specific=True)

    class LevelC(CustomCluster, LevelControl):
        _CONSTANT_ATTRIBUTES = {0xF020: 7}

        class AttributeDefs(LevelControl.AttributeDefs):
            vconst = A(id=0xF020, type=t.uint8_t)
            vm = A(id=0xF021, type=t.uint16_t, is_manufacturer_specific=True)

    class TempC(CustomCluster, TemperatureMeasurement):
        class AttributeDefs(TemperatureMeasurement.AttributeDefs):
            vm = A(id=0xF030, type=t.uint16_t, is_manufacturer_specific=True)

    class ManufC(CustomCluster):
        cluster_id = 0xFC11
        ep_attribute = "v_manuf"
        name = "Manuf"

        class AttributeDefs(BaseAttributeDefs):
            a = A(id=0x0000, type=t.uint8_t)
            b = A(id=0x0001, type=t.uint16_t)

        class ServerCommandDefs(BaseCommandDefs):
            go = C(id=0x00, schema={"x": t.uint8_t}, direction=False)

    MENU.update(OnOffC=OnOffC, OnOffM=OnOffM, LevelC=LevelC, TempC=TempC, ManufC=ManufC, OnOffStd=OnOff)
    return MENU


# ------------------------------------------------------------ generation
def base_eps(rng):
    ins = sorted({0} | set(rng.sample([1, 3, 4, 6, 8, 0x402, 0xFC11], rng.randint(1, 6))))
    outs = sorted(rng.sample([3, 6, 8, 0x19], rng.randint(0, 3)))
    eps = {"1": {"profile": 0x0104, "dev_type": rng.choice([0x0051, 0x0100, 0x7777]), "version": 1, "ins": ins, "outs": outs}}
    if rng.random() < 0.4:
        eps["2"] = {"profile": rng.choice([0x0104, 0xC05E]), "dev_type": 0x0100, "version": 1,
                    "ins": sorted(rng.sample([1, 3, 6, 8, 0x402], rng.randint(1, 3))), "outs": sorted(rng.sample([3, 6, 8], rng.randint(0, 2)))}
    return eps


def cl_choice(rng):
    return rng.choice(["OnOffC", "OnOffC", "OnOffM", "LevelC", "TempC", "ManufC", "OnOffStd", 6, 8, 0x402, 0xFC11, 1])


def quirk_v2(rng, eps):
    q = {"v": 2, "adds": [], "removes": [], "replaces": [], "occ": []}
    ids = [int(e) for e in eps]
    typ = lambda: rng.choice([0, 0, 0, 1])  # noqa: E731
    for _ in range(rng.choice([0, 1, 1, 2])):
        c = cl_choice(rng)
        a = {"cl": c, "t": typ(), "ep": rng.choice(ids), "const": {}}
        if c == "OnOffC" and rng.random() < 0.6:
            a["const"] = {str(x): rng.randint(1, 200) for x in rng.sample([0xF011, 0xF012, 0xF010], rng.choice([1, 1, 2]))}
        q["adds"].append(a)
    for _ in range(rng.choice([0, 0, 1, 2])):
        q["removes"].append({"cid": rng.choice([1, 3, 6, 8, 0x402]), "t": typ(), "ep": rng.choice(ids)})
    for _ in range(rng.choice([0, 1, 1, 2])):
        q["replaces"].append({"cl": rng.choice(["OnOffC", "OnOffM", "LevelC", "TempC", "ManufC"]), "cid": rng.choice([None, None, None, 1, 3, 6]), "t": typ(),
                              "ep": rng.choice(ids)})
    for _ in range(rng.choice([0, 0, 1])):
        q["occ"].append({"cl": rng.choice(["OnOffC", "LevelC", "TempC"]), "types": rng.choice([[0, 1], [0], [1]])})
    q["nd"] = 0x1A2B if rng.random() < 0.2 else None
    q["skip"] = rng.choice([None, None, False, True])
    q["override"] = 0x1777 if rng.random() < 0.15 else None
    q["filter"] = rng.choice([[], [], ["signature"], ["model"], ["signature", "model"], ["model", "signature"]])
    return q


def quirk_v1(rng, eps):
    q = {"v": 1, "eps": {}}
    for e, s in eps.items():
        if rng.random() < 0.1 and e != "1":
            continue
        ins = []
        for c in s["ins"]:
            r = rng.random()
            m = {6: ["OnOffC", "OnOffM"], 8: ["LevelC"], 0x402: ["TempC"], 0xFC11: ["ManufC"]}.get(c)
            if r < 0.5 and m:
                ins.append(rng.choice(m))
            elif r < 0.9 or c == 0:
                ins.append(c)
        outs = []
        for c in s["outs"]:
            if c == 6 and rng.random() < 0.5:
                outs.append("OnOffC")
            elif rng.random() < 0.9:
                outs.append(c)
        for _ in range(rng.choice([0, 0, 1])):
            x = cl_choice(rng)
            if CODES.get(x, x) not in [CODES.get(y, y) for y in ins]:
                ins.append(x)
        q["eps"][e] = {"ins": ins, "outs": outs, "profile": rng.choice([None, 0x0104]), "dev_type": rng.choice([None, None, 0x0102])}
    if rng.random() < 0.3:
        q["eps"]["5"] = {"ins": ["OnOffC"], "outs": [], "profile": 0x0104, "dev_type": 0x0100}
    q["nd"] = 0x1A2B if rng.random() < 0.2 else None
    q["skip"] = rng.random() < 0.3
    q["override"] = 0x1777 if rng.random() < 0.15 else None
    q["model"] = rng.choice([None, None, None, "Renamed"])
    q["wild"] = rng.random() < 0.25  # the signature does not name the model
    return q


KINDS = ["report", "report", "report", "read", "read", "read", "write", "cmd", "conf", "clear", "rejoin", "renwk", "restart", "relays"]


def generate(rng, tier):
    quirks, devs = [], []
    n = rng.choice([1, 1, 2, 3])
    nq = rng.choice([1, 1, 2])
    bases = [base_eps(rng) for _ in range(nq)]
    for k, b in enumerate(bases):
        quirks.append({**(quirk_v2 if rng.random() < 0.6 else quirk_v1)(rng, b), "b": k})
    if rng.random() < 0.25:  # another quirk for the same model
        k = rng.randrange(nq)
        quirks.insert(rng.randint(0, nq), {**quirk_v1(rng, bases[k]), "b": k})
    for i in range(n):
        k = rng.randrange(nq)
        eps = {e: {**s, "attrs": {}} for e, s in bases[k].items()}
        eps["1"]["attrs"].update(common.basic_attrs("QCo", f"Q{k}"))
        near = None
        if rng.random() < 0.2:
            near = rng.choice(["model", "cluster", "manuf", "endpoint", "out", "profile", "type"])
            if near == "model":
                eps["1"]["attrs"].update(common.basic_attrs("QCo", f"Q{k}x"))
            elif near == "manuf":
                eps["1"]["attrs"].update(common.basic_attrs("QCo2", f"Q{k}"))
            elif near == "endpoint":
                eps["7"] = {"profile": 0x0104, "dev_type": 0x0051, "version": 1, "ins": [3, 6], "outs": [], "attrs": {}}
            elif near == "out":
                eps["1"]["outs"] = sorted(set(eps["1"]["outs"]) ^ {0x0A})
            elif near == "profile":
                eps["1"]["profile"] = 0xC05E
            elif near == "type":
                eps["1"]["dev_type"] = 0x0101
            else:
                eps["1"]["ins"] = sorted(set(eps["1"]["ins"]) ^ {0x20})
        for e, s in eps.items():
            for c in s["ins"] + s["outs"]:
                for a, (ty, _) in PLAIN.get(c, {}).items():
                    if rng.random() < 0.8:
                        s["attrs"][f"{c}:{a}"] = [ty, mk(rng, ty).hex()]
                for name, cid in CODES.items():
                    if cid == c:
                        for a, (ty, _) in ATTRS[name].items():
                            if rng.random() < 0.8:
                                s["attrs"].setdefault(f"{c}:{a}", [ty, mk(rng, ty).hex()])
        lg = rng.choice([1, 1, 2])
        devs.append({"logical": lg, "mac_caps": 0x80 if lg == 2 else 0x8E, "manuf": rng.choice([0x1234, 0x115F]), "eps": eps, "b": k, "near": near,
                     "tsn0": rng.randint(0, 255)})
    ops = []
    span = rng.choice([3, 10, 40])
    for i in range(n):
        ops.append({"op": "join", "d": i, "at": 0})
        for _ in range(rng.choice([0, 0, 1, 3])):
            ops.append({**rand_op(rng, "report"), "d": i, "at": round(rng.uniform(0, 3), 2)})
    for _ in range(rng.choice([3, 6, 12, 20])):
        ops.append({**rand_op(rng, rng.choice(KINDS)), "d": rng.randrange(n), "at": round(rng.choice([1.0, 2.0, rng.uniform(0, span), rng.uniform(0, span)]), 2)})
    net = common.net(rng, rng.choice(["none", "none", "light", "medium"]))
    net["rates"].pop("send_weird", None)
    if rng.random() < 0.15:  # answers to the interview arrive during later requests
        net["rates"] = {"late_rsp": 0.4, "dup_rsp": rng.choice([0, 0.3])}
        net["late"] = rng.choice([15.0, 30.0])
        for i in range(n):
            for _ in range(rng.choice([6, 10, 14])):
                ops.append({**rand_op(rng, "read"), "d": i, "at": round(rng.uniform(1, 15), 2), "basic": True})
    return {"cfg": {**net, "devs": devs, "quirks": quirks, "bases": bases}, "ops": ops}


def mk(rng, ty):
    if ty == 0x42:
        return W.lvstr(rng.choice(["1.0", "abc", "2.1"]))
    return {0x10: lambda: W.u8(rng.randint(0, 1)), 0x20: lambda: W.u8(rng.randint(0, 254)), 0x30: lambda: W.u8(rng.randint(0, 4)),
            0x21: lambda: W.u16(rng.randint(0, 65534)), 0x29: lambda: W.u16(rng.randint(0, 30000))}[ty]()


def rand_op(rng, k):
    op = {"op": k, "e": rng.randint(0, 2), "c": rng.randint(0, 7), "out": rng.random() < 0.2, "a": [rng.randint(0, 5) for _ in range(rng.choice([1, 1, 2, 3]))],
          "v": rng.randint(0, 200), "names": rng.random() < 0.3}
    if k == "read" and rng.random() < 0.2:
        op["refuse"] = rng.choice([0x01, 0x82, 0xC1])
    if k in ("read", "write", "cmd") and rng.random() < 0.1:
        op["manuf"] = 0x1999
    if k == "relays":
        op["r"] = rng.choice([[], [0x2222], [0x2222, 0x3333]])
    return op


# ------------------------------------------------------------------ model
class Want:
    """What the tracked object of a device must look like."""

    def __init__(self, spec, q, matches):
        self.matches = matches
        # (endpoint, role) -> {cluster id: class name or None}
        self.eps = {}
        self.consts = {}  # (endpoint, role, cluster) -> {attribute: value}
        self.kept = set()  # clusters of the device that the quirk leaves alone (v2)
        self.meta = {}
        own = {int(e): s for e, s in spec["eps"].items()}
        if not matches:
            self.manuf = spec["manuf"]
            for e, s in own.items():
                self.eps[e] = [{c: None for c in s["ins"]}, {c: None for c in s["outs"]}]
                self.meta[e] = (s["profile"], s["dev_type"])
            return
        self.manuf = q["override"] or q["nd"] or spec["manuf"]
        if q["v"] == 1:
            for e, r in q["eps"].items():
                e = int(e)
                o = own.get(e)
                self.eps[e] = [{}, {}]
                for role, lst in ((0, r["ins"]), (1, r["outs"])):
                    for c in lst:
                        self.put(e, role, c, {})
                self.meta[e] = (r["profile"] if r["profile"] is not None else o["profile"],
                                r["dev_type"] if r["dev_type"] is not None else o["dev_type"])
            return
        for e, s in own.items():
            self.eps[e] = [{}, {}]
            self.meta[e] = (s["profile"], s["dev_type"])
            for role, lst in ((0, s["ins"]), (1, s["outs"])):
                for c in lst:
                    self.eps[e][role][c] = None
                    self.kept.add((e, role, c))
        for a in q["adds"]:
            self.put(a["ep"], a["t"], a["cl"], {int(k): v for k, v in a["const"].items()})
        for r in q["removes"]:
            self.drop(r["ep"], r["t"], r["cid"])
        for r in q["replaces"]:
            self.drop(r["ep"], r["t"], CODES[r["cl"]] if r["cid"] is None else r["cid"])
            self.put(r["ep"], r["t"], r["cl"], {})
        for o in q["occ"]:
            for e in self.eps:
                for role in o["types"]:
                    if CODES[o["cl"]] in self.eps[e][role]:
                        self.drop(e, role, CODES[o["cl"]])
                        self.put(e, role, o["cl"], {})

    def put(self, e, role, c, const):
        cid = CODES.get(c, c)
        k = (e, role, cid)
        if isinstance(c, str):
            self.eps[e][role][cid] = c
            self.kept.discard(k)
            self.consts.pop(k, None)
            if const or c in CONST:
                self.consts[k] = {**(const or CONST[c])}
        else:
            self.eps[e][role].setdefault(cid, None)

    def drop(self, e, role, cid):
        self.eps[e][role].pop(cid, None)
        self.kept.discard((e, role, cid))
        self.consts.pop((e, role, cid), None)

    def attrs(self, e, role, cid):
        n = self.eps[e][role][cid]
        return PLAIN.get(cid, {}) if n is None else ATTRS[n]


def shape(eps):
    return {int(e): (s["profile"], s["dev_type"], tuple(sorted(s["ins"])), tuple(sorted(s["outs"]))) for e, s in eps.items()}


def chosen(spec, quirks, bases):
    """Index of the quirk that is responsible for the device, or None."""
    exact, wild = [], []
    for k, q in enumerate(quirks):
        named = q["b"] == spec["b"] and spec["near"] not in ("model", "manuf")
        alike = shape(bases[q["b"]]) == shape(spec["eps"])
        if q["v"] == 2:
            if named and (alike or "signature" not in q["filter"]):
                return k
        elif alike and (named or q["wild"]):
            (wild if q["wild"] else exact).append(k)
    # the quirk registered last has precedence
    return exact[-1] if exact else wild[-1] if wild else None


def wire_value(ty, v):
    if ty == 0x42:
        return W.lvstr(f"v{v}"), f"v{v}"
    if ty == 0x10:
        return W.u8(v & 1), v & 1
    if ty == 0x30:
        return W.u8(v % 5), v % 5
    if ty == 0x20:
        return W.u8(v), v
    return W.u16(v * 100), v * 100


def register(quirks, bases):
    """Register the generated quirks; returns a function that removes them."""
    import zigpy.quirks as zq
    import zigpy.quirks.v2 as v2
    import zigpy.types as t
    import zigpy.zdo.types as zdo_t
    from zigpy.zcl import ClusterType

    m = menu()
    undo, classes = [], []
    roles = (ClusterType.Server, ClusterType.Client)

    def node(manuf):
        return zdo_t.NodeDescriptor.deserialize(W.node_desc(1, 0x8E, manuf))[0]

    for k, q in enumerate(quirks):
        sig = {int(e): {"profile_id": s["profile"], "device_type": s["dev_type"], "input_clusters": list(s["ins"]),
                        "output_clusters": list(s["outs"])} for e, s in bases[q["b"]].items()}
        if q["v"] == 1:
            rep = {"endpoints": {}}
            for e, r in q["eps"].items():
                x = {"input_clusters": [m.get(c, c) for c in r["ins"]], "output_clusters": [m.get(c, c) for c in r["outs"]]}
                if r["profile"] is not None:
                    x["profile_id"] = r["profile"]
                if r["dev_type"] is not None:
                    x["device_type"] = r["dev_type"]
                rep["endpoints"][int(e)] = x
            if q["nd"] is not None:
                rep["node_desc"] = node(q["nd"])
            if q["skip"]:
                rep["skip_configuration"] = True
            if q["model"]:
                rep["model"] = q["model"]
                rep["manufacturer"] = "RenamedCo"
            s = {"endpoints": sig}
            if not q["wild"]:
                s["models_info"] = [("QCo", f"Q{q['b']}"), ("QOther", "QO")]
            body = {"signature": s, "replacement": rep}
            if q["override"]:
                body["manufacturer_id_override"] = t.uint16_t(q["override"])
            cls = type(f"Quirk{k}", (zq.CustomDevice,), body)
            classes.append(cls)
            undo.append(lambda c=cls: zq.DEVICE_REGISTRY.remove(c))
        else:
            b = v2.QuirkBuilder("QCo", f"Q{q['b']}").applies_to("QOther", f"QO{k}")
            for x in q["filter"]:
                b.filter(zq.signature_matches({"endpoints": sig}) if x == "signature" else lambda dev: dev.manufacturer == "QCo")
            for a in q["adds"]:
                c = m.get(a["cl"], a["cl"])
                const = {c.attributes[int(i)]: v for i, v in a["const"].items()} if a["const"] else None
                b.adds(c, cluster_type=roles[a["t"]], endpoint_id=a["ep"], constant_attributes=const)
            for r in q["removes"]:
                b.removes(r["cid"], cluster_type=roles[r["t"]], endpoint_id=r["ep"])
            for r in q["replaces"]:
                b.replaces(m[r["cl"]], cluster_id=r["cid"], cluster_type=roles[r["t"]], endpoint_id=r["ep"])
            for o in q["occ"]:
                b.replace_cluster_occurrences(m[o["cl"]], replace_server_instances=0 in o["types"], replace_client_instances=1 in o["types"])
            if q["nd"] is not None:
                b.node_descriptor(node(q["nd"]))
            if q["skip"]:
                b.skip_configuration()
            elif q["skip"] is False:
                b.skip_configuration(False)
            cls = v2.CustomDeviceV2
            if q["override"]:
                cls = type(f"Quirk{k}", (v2.CustomDeviceV2,), {"manufacturer_id_override": t.uint16_t(q["override"])})
                b.device_class(cls)
            entry = b.add_to_registry()
            classes.append(cls)

            class Key:
                pass

            def rm(entry=entry):
                for mm in entry.manufacturer_model_metadata:
                    o = Key()
                    o.quirk_metadata, o.manufacturer, o.model = entry, mm.manufacturer, mm.model
                    zq.DEVICE_REGISTRY.remove(o)

            undo.append(rm)

    def cleanup():
        for f in undo:
            f()

    return classes, cleanup


# -------------------------------------------------------------------- run
async def run(w, plan):
    cfg = plan["cfg"]
    classes, cleanup = register(cfg["quirks"], cfg["bases"])
    try:
        await scenario(w, plan, classes)
    finally:
        cleanup()


async def scenario(w, plan, classes):
    import zigpy.device

    cfg = plan["cfg"]
    env = persist.Env(w, cfg)
    R = env.R
    m = menu()
    devs = env.devs
    by_eui = {}
    for d, s in zip(devs, cfg["devs"]):
        k = chosen(s, cfg["quirks"], cfg["bases"])
        q = d.q = None if k is None else cfg["quirks"][k]
        d.want = Want(s, q, k is not None)
        d.cls = zigpy.device.Device if k is None else classes[k]
        d.lock = asyncio.Lock()
        d.vals = {}  # (ep, role, cluster, attribute) -> confirmed value
        d.hist = {(int(e), int(c.split(":")[0]), int(c.split(":")[1])): {W.decode(v[0], bytes.fromhex(v[1]))}
                  for e, x in s["eps"].items() for c, v in x["attrs"].items()}
        d.refuse = None
        d.raw = None
        by_eui[d.eui] = d

        def hook(tx, f, e, d=d):
            if d.refuse is not None and not f.cluster_specific and f.cmd == W.READ and int(tx.cluster) == d.refuse[0]:
                d.zcl_reply(tx, f, W.DEFAULT_RSP, bytes([f.cmd, d.refuse[1]]))
                return True
            return False
        d.zcl_hook = hook

    def dev_of(d):
        return env.app.devices.get(d.eui)

    def check_dev(dev, d, how):
        wn, q = d.want, d.q
        if type(dev) is not d.cls:
            w.violate("wrong-class", f"{d.name}: {how}: tracked as {type(dev).__name__} instead of {d.cls.__name__}")
            return
        w.check(dev.ieee == d.eui and dev.application is env.app, "identity", lambda: f"{d.name}: {how}: {dev!r}")
        eps = {e: ep for e, ep in dev.endpoints.items() if e != 0}
        if sorted(eps) != sorted(wn.eps):
            w.violate("wrong-endpoints", f"{d.name}: {how}: endpoints {sorted(eps)} instead of {sorted(wn.eps)}")
            return
        for e, ep in eps.items():
            w.check(ep.device is dev and ep.endpoint_id == e, "endpoint-owner", lambda: f"{d.name} ep {e}: {ep!r}")
            w.check((ep.profile_id, ep.device_type) == wn.meta[e], "endpoint-profile",
                    lambda: f"{d.name} ep {e}: {how}: profile/type {ep.profile_id}/{ep.device_type} instead of {wn.meta[e]}")
            for role, got in ((0, ep.in_clusters), (1, ep.out_clusters)):
                exp = wn.eps[e][role]
                if sorted(got) != sorted(exp):
                    w.violate("wrong-clusters", f"{d.name} ep {e} {'out' if role else 'in'}: {how}: {sorted(got)} instead of {sorted(exp)}")
                    continue
                for cid, c in got.items():
                    n = exp[cid]
                    w.check((type(c) is m[n]) if n is not None else type(c).__module__.startswith("zigpy."), "cluster-class",
                            lambda: f"{d.name} ep {e} {cid:#06x}: {how}: {type(c).__name__} instead of {n}")
                    w.check(c.endpoint is ep and int(c.cluster_id) == cid, "cluster-owner", lambda: f"{d.name} ep {e} {cid:#06x}: {c!r}")
                    w.check(c.is_server is (role == 0) and c.is_client is (role == 1), "cluster-role",
                            lambda: f"{d.name} ep {e} {'out' if role else 'in'} {cid:#06x}: {how}: {type(c).__name__} says it is a "
                            f"{'server' if c.is_server else 'client'}")
        nd = dev.node_desc
        w.check(nd is not None and int(nd.manufacturer_code) == ((wn.matches and q["nd"]) or d.manuf), "node-descriptor",
                lambda: f"{d.name}: {how}: node descriptor {nd}")
        w.check(int(dev.manufacturer_id) == wn.manuf, "manufacturer-id", lambda: f"{d.name}: {how}: {dev.manufacturer_id} instead of {wn.manuf}")
        if wn.matches:
            w.check(bool(dev.skip_configuration) == bool(q["skip"]), "skip-configuration", lambda: f"{d.name}: {how}: {dev.skip_configuration}")
            if q["v"] == 1 and q["model"]:
                w.check((dev.manufacturer, dev.model) == ("RenamedCo", q["model"]), "renamed", lambda: f"{d.name}: {how}: {dev.manufacturer!r}/{dev.model!r}")
            for (e, role, cid), cs in wn.consts.items():
                c = cluster_of(dev, e, role, cid)
                for a, v in cs.items():
                    w.check(c is not None and c.get(a) == v, "constant-lost",
                            lambda: f"{d.name} ep {e} {cid:#06x}: {how}: constant attribute {a:#06x} is {c and c.get(a)!r} instead of {v}")

    def cluster_of(dev, e, role, cid):
        ep = dev.endpoints.get(e)
        return None if ep is None else (ep.out_clusters if role else ep.in_clusters).get(cid)

    def check_vals(d, how):
        dev = dev_of(d)
        if dev is None:
            return
        for (e, role, cid, a), v in d.vals.items():
            c = cluster_of(dev, e, role, cid)
            if c is None:
                continue
            got = c.get(a)
            w.check(got == v, "value-lost", lambda: f"{d.name} ep {e} {'out' if role else 'in'} {cid:#06x} {a:#06x}: {how}: {got!r} instead of {v!r}")

    def snapshot(dev):
        return {(e, role, int(cid), int(a)): v for e, ep in dev.endpoints.items() if e for role, cls in ((0, ep.in_clusters), (1, ep.out_clusters))
                for cid, c in cls.items() for a, v in c._attr_cache.items()}

    class Listener:
        def __init__(self, app):
            self.app = app

        def raw_device_initialized(self, dev):
            d = by_eui.get(dev.ieee)
            if d is not None and self.app is env.app:
                d.raw = (dev, snapshot(dev), dev.last_seen, dev.lqi, dev.rssi, dev.relays, dev.nwk, dev.status)

        def device_initialized(self, dev):
            d = by_eui.get(dev.ieee)
            if d is None or self.app is not env.app:
                return
            w.log("initialized", d.name)
            w.check(env.app.devices.get(dev.ieee) is dev, "initialized-not-tracked", lambda: f"{d.name}: the announced object is not the tracked one")
            check_dev(dev, d, "announced")
            raw = d.raw
            if raw is None or raw[0] is dev:
                return
            w.stats["takeovers"] += 1
            for nme, a, b in (("last_seen", raw[2], dev.last_seen), ("lqi", raw[3], dev.lqi), ("rssi", raw[4], dev.rssi), ("relays", raw[5], dev.relays),
                              ("nwk", raw[6], dev.nwk), ("status", raw[7], dev.status)):
                w.check(a == b, "property-lost", lambda: f"{d.name}: {nme} is {b!r} after the quirk took over, was {a!r}")
            if d.q is not None and d.q["v"] == 2:
                now = snapshot(dev)
                for k, v in raw[1].items():
                    if k[:3] in d.want.kept:
                        w.check(now.get(k) == v, "cache-lost", lambda: f"{d.name}: {k} is {now.get(k)!r} after the quirk took over, was {v!r}")

    async def boot():
        await env.boot(start=False)
        env.app.add_listener(Listener(env.app))
        await env.app.startup()

    await boot()
    for d in devs:
        if not d.want.matches:
            w.stats["lookalikes"] += 1

    def quiet():
        for d in devs:
            dev = dev_of(d)
            w.state(d.name, type(dev).__name__, dev is not None and dev.is_initialized, 0 if dev is None else len(dev.endpoints), len(d.vals))

    w.on_quiet = quiet
    gate = {"busy": 0, "restart": False}
    lat = cfg["lat"][1] + 0.01

    def targets(d):
        """Clusters of the tracked object that the device really has."""
        out = []
        for e, roles in sorted(d.want.eps.items()):
            if e not in d.eps:
                continue
            for role, cls in enumerate(roles):
                own = d.eps[e]["outs" if role else "ins"]
                for cid in sorted(cls):
                    if d.want.attrs(e, role, cid):
                        out.append((e, role, cid, cid in own))
        return out

    def pick(d, op):
        t = targets(d)
        real = [x for x in t if x[3]]
        t = t if op["e"] == 0 else real or t
        t2 = [x for x in t if (x[1] == 1) == op["out"]] or t
        return t2[op["c"] * 3 % len(t2)] if t2 else None

    async def one(op):
        d = devs[op["d"]]
        k = op["op"]
        app = env.app
        dev = dev_of(d)
        w.log("op", k, d.name)
        if k == "join":
            app.handle_join(R.t.NWK(d.nwk), d.eui, R.t.NWK(0))
            return
        if k in ("rejoin", "renwk"):
            if k == "renwk":
                d.moves += 1
                d.nwk = common.nwk_of(op["d"]) + d.moves
            d.announce(lossy=False)
            await asyncio.sleep(lat)
            return
        if k == "relays":
            app.handle_relays(R.t.NWK(d.nwk), [R.t.NWK(x) for x in op["r"]])
            return
        ready = dev is not None and dev.is_initialized and d.eui in env.known
        if k == "report":
            if dev is None:
                return
            eid = sorted(d.eps)[op["e"] % len(d.eps)]
            cids = [c for c in sorted(set(d.eps[eid]["ins"] + d.eps[eid]["outs"])) if PLAIN.get(c)]
            if not cids:
                return
            cid = cids[op["c"] % len(cids)]
            role = None
            if ready and eid in d.want.eps:
                role = 0 if cid in d.want.eps[eid][0] else 1 if cid in d.want.eps[eid][1] else None
            attrs = d.want.attrs(eid, role, cid) if role is not None else PLAIN[cid]
            ids = sorted(attrs) or sorted(PLAIN[cid])
            recs, exp = [], {}
            for i, x in enumerate(op["a"]):
                a = ids[x % len(ids)]
                if a in exp:
                    continue
                ty = attrs.get(a, PLAIN[cid].get(a))[0]
                raw, v = wire_value(ty, (op["v"] + i) % 200)
                recs.append((a, ty, raw))
                exp[a] = v
                d.eps[eid]["attrs"][(cid, a)] = (ty, raw)
                d.hist.setdefault((eid, cid, a), set()).add(v)
            c = cluster_of(dev, eid, role, cid) if role is not None else None
            got = []
            if c is not None:
                class CL:
                    def attribute_updated(self, a, v, *_):
                        got.append((int(a), v))
                cl = CL()
                c.add_listener(cl)
            before = None if not ready or role is not None else snapshot(dev)
            d.report(eid, cid, recs, lossy=False)
            await asyncio.sleep(lat)
            if not ready:
                return
            if dev_of(d) is not dev:
                w.violate("object-replaced", f"{d.name}: another object is tracked although the device did not leave")
                return
            if c is None:
                after = snapshot(dev)
                w.check(before == after, "stray-value", lambda: f"{d.name}: a report for ep {eid} {cid:#06x}, which the quirk removed, changed {set(after.items()) ^ set(before.items())}")
                return
            c.remove_listener(cl)
            w.stats["reports_checked"] += 1
            w.check(sorted(got, key=repr) == sorted(exp.items(), key=repr), "report-delivery",
                    lambda: f"{d.name} ep {eid} {cid:#06x}: reported {exp}, the cluster announced {got}")
            for a, v in exp.items():
                if a not in d.want.consts.get((eid, role, cid), {}):
                    d.vals[(eid, role, cid, a)] = v
            return
        if not ready:
            return
        tgt = (1, 0, 0, True) if op.get("basic") and 0 in d.want.eps.get(1, [{}])[0] else pick(d, op)
        if tgt is None:
            return
        e, role, cid, own = tgt
        c = cluster_of(dev, e, role, cid)
        if c is None:
            return  # already reported
        name = d.want.eps[e][role][cid]
        attrs = d.want.attrs(e, role, cid)
        custom = name is not None and name != "OnOffStd"
        consts = d.want.consts.get((e, role, cid), {})
        ids = sorted(attrs)
        # prefer the attributes a quirk is about
        ask = list(dict.fromkeys(ids[x % len(ids)] for x in op["a"]))
        n0 = len(env.radio.txs)

        def frames(cmds):
            out = []
            for tx in env.radio.txs[n0:]:
                if int(tx.cluster) == cid and tx.dst_ep == e and R.t.AddrMode.NWK == tx.dst_mode and int(tx.dst) == d.nwk:
                    f = W.Zcl.parse(tx.data)
                    if f.cmd in cmds:
                        out.append(f)
            return out

        def expect_manuf(touch, cmd_specific=False):
            if "manuf" in op:
                return op["manuf"]
            if not custom:
                return None
            if cid >= 0xFC00 or cmd_specific or any(attrs[a][1] for a in touch):
                return d.want.manuf
            return None

        def check_frames(fs, touch, what, cmd_specific=False):
            for f in fs:
                if f.manuf is not None:
                    w.stats["manuf_frames"] += 1
                x = expect_manuf(touch, cmd_specific)
                w.check(f.manuf == x, "manufacturer-code", lambda: f"{d.name} ep {e} {cid:#06x}: {what}: sent with manufacturer {f.manuf} instead of {x}")
                w.check(f.s2c == (role == 1), "direction", lambda: f"{d.name} ep {e} {'out' if role else 'in'} {cid:#06x}: {what}: direction {f.s2c}")

        kw = {"manufacturer": op["manuf"]} if "manuf" in op else {}
        if k == "clear":
            a = ask[0]
            if cid == 0:
                return
            c.update_attribute(a, None)
            w.check(c.get(a) == consts.get(a), "not-cleared", lambda: f"{d.name} ep {e} {cid:#06x}: {a:#06x} is {c.get(a)!r} after it was cleared")
            d.vals.pop((e, role, cid, a), None)
            return
        if k == "read":
            rest = [a for a in ask if a not in consts]
            names = [c.attributes[a].name if op["names"] and a in c.attributes else a for a in ask]
            back = dict(zip(names, ask))
            if "refuse" in op:
                d.refuse = (cid, op["refuse"])
            try:
                ok, bad = await c.read_attributes(names, **kw)
            except (asyncio.TimeoutError, R.zigpy.exceptions.ZigbeeException, R.Weird):
                w.stats["op_failed"] += 1
                w.check(bool(rest), "constant-needs-radio", lambda: f"{d.name} ep {e} {cid:#06x}: reading only constant attributes {ask} failed")
                check_frames(frames([W.READ]), rest, "read")
                return
            finally:
                d.refuse = None
            fs = frames([W.READ])
            check_frames(fs, rest, "read")
            w.check(bool(fs) == bool(rest), "constant-needs-radio", lambda: f"{d.name} ep {e} {cid:#06x}: reading {ask} (constant: {sorted(consts)}) sent {len(fs)} frames")
            for f in fs:
                b = W.Buf(f.payload)
                sent = [b.u16() for _ in range(b.left // 2)]
                w.check(sorted(sent) == sorted(rest), "read-asks", lambda: f"{d.name} ep {e} {cid:#06x}: asked for {sent} instead of {rest}")
            w.check(sorted([*ok, *bad], key=repr) == sorted(names, key=repr), "read-incomplete",
                    lambda: f"{d.name} ep {e} {cid:#06x}: reading {names} returned {ok} and {bad}")
            for nme, v in ok.items():
                a = back.get(nme)
                if a in consts:
                    w.stats["const_reads"] += 1
                    w.check(v == consts[a], "constant-value", lambda: f"{d.name} ep {e} {cid:#06x}: constant {a:#06x} read as {v!r} instead of {consts[a]}")
                elif a is not None:
                    w.stats["reads_ok"] += 1
                    h = d.hist.get((e, cid, a), set())
                    w.check(v in h, "wrong-answer", lambda: f"{d.name} ep {e} {cid:#06x}: {a:#06x} read as {v!r}, the device only ever had {sorted(h, key=repr)}")
                    d.vals[(e, role, cid, a)] = v
            for nme, st in bad.items():
                a = back.get(nme)
                w.check(a not in consts, "constant-failed", lambda: f"{d.name} ep {e} {cid:#06x}: constant {a:#06x} failed with {st}")
            return
        if k == "write":
            ask = [a for a in ask if a not in consts]
            if not ask:
                return
            vals = {}
            for i, a in enumerate(ask):
                raw, v = wire_value(attrs[a][0], (op["v"] + i) % 200)
                vals[a] = v
                d.hist.setdefault((e, cid, a), set()).add(v)
            try:
                res = await c.write_attributes(dict(vals), **kw)
            except (asyncio.TimeoutError, R.zigpy.exceptions.ZigbeeException, R.Weird):
                w.stats["op_failed"] += 1
                check_frames(frames([W.WRITE]), ask, "write")
                return
            check_frames(frames([W.WRITE]), ask, "write")
            recs = res[0] if isinstance(res[0], list) else None
            if recs is not None:
                failed = {int(r.attrid) for r in recs if int(r.status)}
                for a, v in vals.items():
                    if a not in failed:
                        d.vals[(e, role, cid, a)] = v
            return
        if k == "conf":
            a = ask[0]
            if attrs[a][0] == 0x42:
                return
            try:
                await c.configure_reporting(a, 1, 60, 1, **kw)
            except (asyncio.TimeoutError, R.zigpy.exceptions.ZigbeeException, R.Weird):
                w.stats["op_failed"] += 1
            check_frames(frames([W.CONF_REP]), [a], "configure reporting")
            return
        if k == "cmd":
            if role == 1:
                return
            cmds = {"OnOffC": [(1, False, {}), (0xC0, True, {"x": 5})], "ManufC": [(0, False, {"x": 1})]}.get(name, [(1, False, {})] if cid == 6 else [])
            if not cmds:
                return
            cmd, ms, args = cmds[op["v"] % len(cmds)]
            try:
                await c.command(cmd, **args, **kw)
            except (asyncio.TimeoutError, R.zigpy.exceptions.ZigbeeException, R.Weird):
                w.stats["op_failed"] += 1
            fs = [f for f in frames([cmd]) if f.cluster_specific]
            check_frames(fs, [], f"command {cmd:#04x}", ms)
            return

    async def restart():
        gate["restart"] = True
        while gate["busy"]:
            await asyncio.sleep(0.5)
        for d in devs:
            dev = dev_of(d)
            if dev is not None:
                while dev.initializing:
                    await asyncio.sleep(1.0)
        w.stats["restarts"] += 1
        w.on_quiet = None
        persist.stop_group_scans(env.app)
        known = set(env.known)
        await env.shutdown()
        env.app = None
        # answers to the old session are gone before the next one starts
        await asyncio.sleep(95)
        await boot()
        w.on_quiet = quiet
        gate["restart"] = False
        for d in devs:
            if d.eui in known:
                dev = dev_of(d)
                if dev is None:
                    w.violate("lost", f"{d.name} is unknown after a restart")
                    continue
                check_dev(dev, d, "after a restart")
                check_vals(d, "after a restart")

    async def at(op):
        dt = op["at"]
        if dt:
            await asyncio.sleep(dt)
        d = devs[op["d"]]
        if op["op"] == "restart":
            if gate["restart"]:
                return
            await restart()
            return
        while True:
            async with d.lock:
                if not gate["restart"]:
                    gate["busy"] += 1
                    try:
                        await one(op)
                        check_vals(d, f"after {op['op']}")
                    finally:
                        gate["busy"] -= 1
                    return
            await asyncio.sleep(0.5)

    tasks = [asyncio.create_task(at(o)) for o in plan["ops"]]
    await asyncio.wait(tasks)
    for x in tasks:
        x.result()
    env.radio.faults_on = False
    for d in devs:
        d.announce(lossy=False)
    await asyncio.sleep(60)
    for d in devs:
        dev = dev_of(d)
        if dev is None or not dev.is_initialized or d.eui not in env.known:
            continue
        check_dev(dev, d, "at the end")
        check_vals(d, "at the end")
    await restart()
    w.on_quiet = None
    await env.shutdown()
    w.sample = {"quirks": cfg["quirks"], "ops": plan["ops"][:4]}


PARTS = [Part("quirks", 1, generate, run, max_steps=300_000)]
