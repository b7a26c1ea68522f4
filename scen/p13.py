"""P13: OTA image lookups offer only genuine, compatible, unambiguous images."""
import asyncio
import hashlib
import io
import json
import pathlib
import random
import tarfile
import urllib.parse

from scen import common
from scen.p12 import raw_image
from sim import wire as W
from sim.runner import Part

PROPERTY = "P13"
LEVEL = "exploration"
RUNS = {"quick": 10000, "thorough": 200000}
BATCH = 40
PRELOAD = ("sim.http", "zigpy.ota.providers")
REAL = ["zigpy.ota.OTA.get_ota_images", "zigpy.ota.providers (all kinds)", "zigpy.ota.image", "combine_concurrent_calls", "Ota cluster query handler"]
STUBS = ["aiohttp.ClientSession (web servers)", "radio", "clock and scheduler", "image files in a scratch directory"]
RULE = ("a run = 1..4 sources of every provider kind with 1..5 images each (plain, IKEA-, Legrand-, ThirdReality- and Hue-wrapped; wrong size, checksum, "
        "format; duplicates and conflicts) behind servers that fail, hang, answer slowly, with error pages or damaged bodies, and 2..8 lookups of "
        "1..3 devices, direct or asked by radio, overlapping, cancelled, hours or days apart, while sources publish more; "
        "distinct = distinct sequence of requests and results")
STATES = "(provider kinds, offered, refused, failed downloads, collisions, overlap)"
PROBES = ["lookups", "offered", "downgrades", "collisions", "cancelled", "asked_by_radio", "shared_download", "bad_download", "retried_download",
          "index_failed", "hardware_refused", "exact", "sound_only", "local_images"]
ASSUMPTIONS = ["an index is not fetched again within 24 h of a successful fetch; after failed or cancelled fetches either is accepted",
               "image addresses are unique per image; images known once stay known"]

TIMEOUT = 20.0
DAY = 86400.0
KINDS = ["zigpy", "zigpy", "z2m", "tradfri", "sonoff", "thirdreality", "inovelli", "ledvance", "salus", "local", "advanced"]
ONCE = {"sonoff", "thirdreality", "inovelli", "salus"}
FIXED = {"sonoff": "https://zigbee-ota.sonoff.tech/releases/upgrade.json", "thirdreality": "https://tr-zha.s3.amazonaws.com/firmware.json",
         "inovelli": "https://files.inovelli.com/firmware/firmware-zha-v2.json", "salus": "https://eu.salusconnect.io/demo/default/status/firmware"}
MODELS = ["M1", "M2"]
NAMES = ["Acme", "Bcme"]


def gen_image(rng, kind, m):
    ver = rng.choice([0x05, 0x20, 0x20, 0x21, 0x21, 0x30, 0x30, 0x31])
    i = {"ver": ver, "manuf": m if rng.random() < 0.92 else m + 1, "type": 1 if rng.random() < 0.9 else 2, "size": rng.choice([4, 64, 64, 200]),
         "seed": rng.randrange(3) if rng.random() < 0.6 else rng.getrandbits(20), "wrap": rng.choice(["plain"] * 5 + ["ngis", "legrand", "tr", "hue", "fakehue"]), "two": rng.random() < 0.3,
         "hw": rng.choice([None, None, None, [1, 3], [3, 5], [2, 2]]), "defect": rng.choice([None] * 9 + ["sum", "size", "format"]),
         "models": rng.choice([[], [], ["M1"], ["M2"], ["M1", "M2"]]), "names": rng.choice([[], [], [], ["Acme"], ["Bcme"]])}
    if kind in ("zigpy", "local"):
        if rng.random() < 0.25:
            i["minhw"] = rng.choice([0, 1, 3])
        if rng.random() < 0.25:
            i["maxhw"] = rng.choice([1, 3, 5])
        if rng.random() < 0.2:
            i["spec"] = rng.choice([0, 1, 5, 1000, -10])
    if kind in ("zigpy", "local", "z2m"):
        if rng.random() < 0.2:
            i["mincur"] = rng.choice([0x08, 0x10, 0x18, 0x20])
        if rng.random() < 0.2:
            i["maxcur"] = rng.choice([0x08, 0x10, 0x18, 0x20])
    if i["wrap"] in ("hue", "fakehue"):
        i["hw"] = None
    if kind == "tradfri":
        i["style"] = rng.choice(["new", "old", "old"])
        if i["style"] == "old" and rng.random() < 0.15:
            i["defect"] = "unhashed"
        if rng.random() < 0.08:
            i["type"] = rng.choice([8704, 8710])
    return i


def generate(rng, tier):
    m = rng.choice([0x1234, 4476])
    kinds = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        k = rng.choice(KINDS)
        if k in ONCE and k in kinds:
            k = "zigpy"
        kinds.append(k)
    sources = [{"kind": k, "ids": rng.choice([[], [], [], [m], [m + 5]]), "images": [gen_image(rng, k, m) for _ in range(rng.randint(1, 4))],
                "dup": rng.random() < 0.1} for k in kinds]
    devices = [{"manuf": m if rng.random() < 0.9 else m + 5, "model": rng.choice(MODELS), "name": rng.choice(NAMES)} for _ in range(rng.choice([1, 2, 3]))]
    level = rng.choice([0, 0, 0.1, 0.3, 0.5])
    cfg = {"m": m, "sources": sources, "devices": devices, "fault": level, "index_fault": rng.choice([0, level / 2]), "delays": rng.choice([[0], [0, 0.3, 1.1], [0.3, 1.1, 5.3, 12, 17.2]])}
    ops = []
    asked = set()
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        dt = rng.choice([0, 0, 0, 0.5, 2, 10, 40])
        if r < 0.66:
            d = rng.randrange(len(devices))
            radio = rng.random() < 0.15
            asked.add(d)
            types = sorted({i["type"] for s in sources for i in s["images"]})
            ops.append({"op": "lookup", "d": d, "radio": radio, "dt": dt, "manuf": m if rng.random() < 0.93 else m + 1, "type": 1 if rng.random() < 0.85 else rng.choice(types),
                        "cur": rng.choice([0x10, 0x10, 0x18, 0x20, 0x30]), "hw": rng.choice([None, 0, 1, 2, 3, 4, 9])})
        elif r < 0.78:
            ops.append({"op": "cancel", "i": rng.randrange(4), "dt": rng.choice([0, 0.5, 2, 10])})
        elif r < 0.86:
            s = rng.randrange(len(sources))
            if sources[s]["kind"] not in ("local", "advanced"):
                ops.append({"op": "publish", "s": s, "image": gen_image(rng, sources[s]["kind"], m), "dt": dt})
        elif r < 0.93:
            ops.append({"op": "swap", "s": rng.randrange(len(sources)), "i": rng.randrange(4), "how": rng.choice(["delete", "corrupt", "restore"]), "dt": dt})
        else:
            ops.append({"op": "sleep", "dt": rng.choice([100, 3600, DAY - 200, DAY + 100])})
    return {"cfg": cfg, "ops": ops}


# ---- image files, built and judged independently of zigpy


def inner_file(i):
    data = raw_image(i["size"], i["seed"], manuf=4107 if i["wrap"] == "hue" else i["manuf"], typ=i["type"], ver=i["ver"], hw=i["hw"])
    if i["two"] and i["wrap"] not in ("hue", "fakehue"):
        second = W.u16(3) + W.u32(16) + bytes(range(16))
        data = data[:52] + W.u32(len(data) + len(second)) + data[56:] + second
    if i["wrap"] in ("hue", "fakehue"):
        body = b"\x2a\x00\x01" + random.Random(i["seed"]).randbytes(i["size"])
        data = data[:52] + W.u32(56 + len(body)) + body
    return data


def ngis(inner, block=64, missing=0):
    n = -(-len(inner) // block) - missing
    off = 40 + 32 * n
    head = b"NGIS" + bytes(12) + W.u32(off) + W.u32(len(inner)) + bytes(8) + W.u32(block) + W.u32(n)
    return head + b"".join(hashlib.sha256(inner[k * block : (k + 1) * block]).digest() for k in range(n)) + inner + b"trailer"


def wrap(i, kind):
    inner = inner_file(i)
    if kind == "tradfri" and i.get("style") == "old":
        return ngis(inner, missing=1) if i["defect"] == "unhashed" else ngis(inner)
    if kind == "salus":
        out = io.BytesIO()
        with tarfile.open(fileobj=out, mode="w") as tar:
            for name, data in (("image.ota", inner), ("networkinfo.json", json.dumps({"upgrade": [{"filename": "image.ota", "checksum": hashlib.md5(inner).hexdigest().upper()}]}).encode())):
                ti = tarfile.TarInfo(name)
                ti.size = len(data)
                tar.addfile(ti, io.BytesIO(data))
        return out.getvalue()
    if i["wrap"] == "ngis":
        return ngis(inner)
    if i["wrap"] == "legrand":
        return W.u32(len(inner)) + inner + bytes(17)
    if i["wrap"] == "tr":
        rest = bytes(4) + W.u32(len(inner) + 152 - 64) + bytes(80) + inner
        return hashlib.sha512(rest).digest() + rest
    return inner


def damage(data, how, kind, i):
    """A damaged body of the same image."""
    if how == "truncate":
        return data[: len(data) // 2]
    if how == "extra":
        return data + b"\xff" * 9
    if how == "html":
        return b"<html>not an image</html>"
    if how == "empty":
        return b""
    inner = inner_file(i)
    if how == "cut":  # exactly the last element
        return data[: data.index(inner) + len(inner) - 22]
    at = data.index(inner) + (len(inner) - 1 if how == "corrupt" else 0)
    return data[:at] + bytes([data[at] ^ 0x55]) + data[at + 1 :]


def ref_parse(d):
    """(content, manufacturer, type, hardware versions) of an OTA file, or None."""
    plain = False
    if len(d) > 4 and int.from_bytes(d[:4], "little") + 21 == len(d):
        d = d[4:-17]
    elif len(d) > 152 and int.from_bytes(d[68:72], "little") + 64 == len(d) and hashlib.sha512(d[64:]).digest() == d[:64]:
        d = d[152:]
    elif d[:4] == b"NGIS":
        off, size = int.from_bytes(d[16:20], "little"), int.from_bytes(d[20:24], "little")
        if len(d) <= 24 or len(d) <= off + size:
            return None
        d = d[off : off + size]
    else:
        plain = True
    if len(d) < 56 or d[:4] != bytes.fromhex("1ef1ee0b"):
        return None
    hl, fc, manuf, typ = (int.from_bytes(d[k : k + 2], "little") for k in (6, 8, 10, 12))
    total = int.from_bytes(d[52:56], "little")
    n, hw = 56, None
    n += (1 if fc & 1 else 0) + (8 if fc & 2 else 0)
    if fc & 4:
        hw = (int.from_bytes(d[n : n + 2], "little"), int.from_bytes(d[n + 2 : n + 4], "little"))
        n += 4
    if len(d) < n:
        return None
    if plain and len(d) >= total and d[n : n + 3] == b"\x2a\x00\x01" and manuf == 4107:
        return d[:total], manuf, typ, hw
    size = total - hl
    if size > len(d) - n:
        return None
    body, rest = d[n : n + size], d[n : n + size]
    while rest:
        if len(rest) < 6 or len(rest) < 6 + int.from_bytes(rest[2:6], "little"):
            return None
        rest = rest[6 + int.from_bytes(rest[2:6], "little") :]
    return d[:n] + body, manuf, typ, hw


class Meta:
    """One image as its source describes it."""

    def __init__(self, n, kind, src, i, path=None):
        self.n, self.kind, self.src, self.i = n, kind, src, i
        self.data = wrap(i, kind)
        if i["defect"] == "format":
            self.data = damage(self.data, "magic", kind, i)
        size, body = len(self.data), self.data
        if kind == "tradfri" and i["style"] == "old":
            size = len(inner_file(i))
        if i["defect"] == "size":
            size += 1
        if i["defect"] == "sum":
            body = body + b"!"
        self.listed_size, self.sum_of = size, body
        self.ver = i["ver"]
        self.manuf, self.type = i["manuf"], i["type"]
        self.models, self.names = i["models"], i["names"]
        self.minhw, self.maxhw = i.get("minhw"), i.get("maxhw")
        self.mincur, self.maxcur, self.spec = i.get("mincur"), i.get("maxcur"), i.get("spec")
        self.size, self.alg = size, None
        self.url = f"https://img.example/{n}.ota"
        self.path = path
        one = MODELS[n % 2] if not self.models else self.models[0]
        if kind == "z2m":
            self.alg, self.models = "sha512", self.models[:1]
        elif kind in ("zigpy", "local"):
            self.alg = "sha3_256"
        elif kind == "tradfri":
            self.models = self.names = []
            if i["style"] == "new":
                self.manuf, self.alg, self.size = 4476, "sha3_256", None
                self.url = f"https://img.example/{n}_v{self.ver}_x.ota"
            else:
                self.url = f"http://img.example/{n}.ota.signed"
        elif kind == "sonoff":
            self.models, self.names = [one], []
        elif kind in ("inovelli", "thirdreality"):
            self.models, self.names, self.size = [one], [], None
        elif kind == "ledvance":
            self.models, self.names, self.alg = [one], [], "sha256"
            self.url = "https://api.update.ledvance.com/v1/zigbee/firmwares/download?" + urllib.parse.urlencode(
                {"Company": self.manuf, "Product": self.type, "Version": f"1.2.3.{n}"})
        elif kind == "salus":
            self.models, self.names, self.size, self.manuf, self.type = [one], [], None, None, None
            self.url = f"http://img.example/{n}.tar"
        elif kind == "advanced":
            p = ref_parse(self.data)
            self.models = self.names = []
            self.alg, self.sum_of, self.size = "sha1", self.data, len(self.data)
            if p is not None:
                self.manuf, self.type = p[1], p[2]
                self.minhw, self.maxhw = p[3] or (None, None)
        if kind not in ("zigpy", "local", "z2m"):
            self.mincur = self.maxcur = None
        self.got = self.url.replace("http://", "https://")
        self.listed = not (kind == "tradfri" and self.type in (8704, 8710)) and not (kind == "advanced" and ref_parse(self.data) is None)
        self.history = [(float("-inf"), self.data)]  # of the file of a local image
        self.surely = float("inf")  # when a lookup surely had read it

    @property
    def local(self):
        return self.path is not None

    def entry(self):
        h = lambda a: hashlib.new(a, self.sum_of).hexdigest()  # noqa: E731
        i = self.i
        if self.kind in ("zigpy", "local"):
            e = {"file_version": self.ver, "file_size": self.size, "image_type": self.type, "manufacturer_id": self.manuf, "checksum": "sha3-256:" + h("sha3_256"),
                 "manufacturer_names": self.names, "model_names": self.models, "changelog": f"c{self.n}"}
            for k, v in (("min_hardware_version", self.minhw), ("max_hardware_version", self.maxhw), ("min_current_file_version", self.mincur),
                         ("max_current_file_version", self.maxcur), ("specificity", self.spec)):
                if v is not None:
                    e[k] = v
            if self.local:
                e["path"] = self.path.name
            else:
                e["binary_url"] = self.url
            return e
        if self.kind == "z2m":
            e = {"fileVersion": self.ver, "fileSize": self.size, "manufacturerCode": self.manuf, "imageType": self.type, "sha512": h("sha512"), "url": self.url}
            if self.names:
                e["manufacturerName"] = self.names
            if self.models:
                e["modelId"] = self.models[0]
            if self.mincur is not None:
                e["minFileVersion"] = self.mincur
            if self.maxcur is not None:
                e["maxFileVersion"] = self.maxcur
            return e
        if self.kind == "tradfri":
            if i["style"] == "new":
                return {"fw_image_type": self.type, "fw_type": 2, "fw_sha3_256": h("sha3_256"), "fw_binary_url": self.url}
            return {"fw_binary_url": self.url, "fw_file_version_LSB": self.ver & 0xFFFF, "fw_file_version_MSB": self.ver >> 16, "fw_filesize": self.size,
                    "fw_image_type": self.type, "fw_manufacturer_id": self.manuf, "fw_type": 2}
        if self.kind == "sonoff":
            return {"fw_binary_url": self.url, "fw_file_version": self.ver, "fw_filesize": self.size, "fw_image_type": self.type, "fw_manufacturer_id": self.manuf,
                    "model_id": self.models[0]}
        if self.kind == "thirdreality":
            return {"modelId": self.models[0], "url": self.url, "version": "1.00.05", "imageType": self.type, "manufacturerId": self.manuf, "fileVersion": self.ver}
        if self.kind == "inovelli":
            return {"version": f"{self.ver:08X}" if self.ver <= 11 else str(self.ver), "channel": "beta", "firmware": self.url, "manufacturer_id": self.manuf,
                    "image_type": self.type}
        if self.kind == "ledvance":
            return {"blob": None, "identity": {"company": self.manuf, "product": self.type, "version": {"major": 1, "minor": 2, "build": 3, "revision": self.n}},
                    "releaseNotes": "", "shA256": h("sha256"), "name": "x", "productName": self.models[0], "fullName": f"x/{self.ver:08X}/y", "extension": ".ota",
                    "released": "2023-01-01T00:00:00", "salesRegion": "eu", "length": self.size}
        if self.kind == "salus":
            return {"model": self.models[0], "version": f"{self.ver:08X}", "url": self.url}
        raise AssertionError(self.kind)

    def genuine(self, body):
        """What a downloaded body yields: parsed image or None."""
        if body is None:
            return None
        if self.kind == "salus":
            try:
                with tarfile.open(fileobj=io.BytesIO(body)) as tar:
                    files = {m.name: tar.extractfile(m).read() for m in tar}
                up = json.loads(files["networkinfo.json"])["upgrade"][0]
                body = files[up["filename"]]
                if hashlib.md5(body).hexdigest().upper() != up["checksum"]:
                    return None
            except Exception:  # noqa: BLE001
                return None
        elif self.kind == "tradfri" and self.i["style"] == "old":
            off, size = int.from_bytes(body[16:20], "little"), int.from_bytes(body[20:24], "little")
            block, n = int.from_bytes(body[32:36], "little"), int.from_bytes(body[36:40], "little")
            if body[:4] != b"NGIS" or size != self.size or off != 40 + 32 * n or block * n < size:
                return None
            data = body[off : off + size]
            if any(hashlib.sha256(data[k * block : (k + 1) * block]).digest() != body[40 + 32 * k : 72 + 32 * k] for k in range(n)):
                return None
        else:
            if self.size is not None and len(body) != self.size:
                return None
            if self.alg is not None and hashlib.new(self.alg, body).digest() != hashlib.new(self.alg, self.sum_of).digest():
                return None
        return ref_parse(body)

    def compatible(self, dev, q, img=None):
        manuf, typ, lo, hi = self.manuf, self.type, self.minhw, self.maxhw
        if img is not None:
            manuf = img[1] if manuf is None else manuf
            typ = img[2] if typ is None else typ
            if img[3] is not None:
                lo = img[3][0] if lo is None else lo
                hi = img[3][1] if hi is None else hi
        if manuf not in (None, q["manuf"]) or typ not in (None, q["type"]):
            return False
        if self.models and dev["model"] not in self.models or self.names and dev["name"] not in self.names:
            return False
        hw = q["hw"]
        return not (lo is not None and (hw is None or hw < lo) or hi is not None and (hw is None or hw > hi))

    def newer(self, cur):
        return self.ver > cur and (self.mincur is None or cur >= self.mincur) and (self.maxcur is None or cur <= self.maxcur)

    def rank(self, img=None):
        have = lambda v, k: v is not None or img is not None and k is not None  # noqa: E731
        hw = img[3] if img else None
        s = 1000 * bool(self.names) + 1000 * bool(self.models) + 100 * have(self.type, img and 1) + 100 * have(self.manuf, img and 1)
        s += 10 * (self.mincur is not None) + 10 * (self.maxcur is not None) + have(self.minhw, hw) + have(self.maxhw, hw)
        return self.ver, s + (self.spec or 0)

    def __repr__(self):
        return f"<image {self.n} of {self.kind}: version {self.ver:#x}>"


class Source:
    def __init__(self, n, cfg, scratch, metas):
        self.n, self.cfg, self.kind = n, cfg, cfg["kind"]
        self.url = FIXED.get(self.kind, f"https://idx.example/{n}.json")
        self.dir = scratch / f"src{n}"
        self.metas = []
        self.all = metas
        for i in cfg["images"]:
            self.add(i)
        if self.local:
            self.dir.mkdir()
            for m in self.metas:
                m.path.write_bytes(m.data)
            (self.dir / "index.json").write_text(json.dumps(self.index())) if self.kind == "local" else None

    @property
    def local(self):
        return self.kind in ("local", "advanced")

    def add(self, i):
        n = len(self.all)
        m = Meta(n, self.kind, self, i, self.dir / f"{n}.ota" if self.local else None)
        self.all.append(m)
        self.metas.append(m)
        return m

    def index(self):
        ents = [m.entry() for m in self.metas]
        if self.cfg["dup"] and ents:
            ents.append(ents[0])
        if self.kind in ("zigpy", "local"):
            return {"firmwares": ents}
        if self.kind == "ledvance":
            return {"firmwares": ents}
        if self.kind in ("salus", "thirdreality"):
            return {"versions": ents + ([{"model": "notes", "version": "", "url": "http://x.example/n.txt"}] if self.kind == "salus" else [])}
        if self.kind == "inovelli":
            out = {}
            for m, e in zip(self.metas, ents):
                out.setdefault(m.models[0], []).append(e)
            return out
        if self.kind == "tradfri":
            return [{"fw_update_prio": 5, "fw_filesize": 1, "fw_type": 3, "fw_hotfix_version": 1, "fw_major_version": 2, "fw_binary_checksum": "0" * 128,
                     "fw_minor_version": 3, "fw_sha3_256": "0" * 64, "fw_binary_url": "http://x.example/gw.bin"}] + ents
        return ents

    def provider(self):
        import zigpy.ota.providers as P

        ids = self.cfg["ids"]
        k = self.kind
        cls = {"zigpy": P.RemoteZigpyProvider, "z2m": P.RemoteZ2MProvider, "tradfri": P.Tradfri, "sonoff": P.Sonoff, "thirdreality": P.ThirdReality,
               "inovelli": P.Inovelli, "ledvance": P.Ledvance, "salus": P.Salus, "local": P.LocalZigpyProvider, "advanced": P.AdvancedFileProvider}[k]
        if k == "local":
            return cls(index_file=self.dir / "index.json", manufacturer_ids=ids)
        if k == "advanced":
            return cls(path=self.dir, manufacturer_ids=ids)
        return cls(url=None if k in FIXED else self.url, manufacturer_ids=ids)

    def serves(self, dev):
        return not self.cfg["ids"] or dev["manuf"] in self.cfg["ids"]


async def run(w, plan):
    from sim import http
    from sim import radio as R

    cfg = plan["cfg"]
    scratch = pathlib.Path(w.scratch)
    metas = []
    sources = [Source(n, c, scratch, metas) for n, c in enumerate(cfg["sources"])]
    radio = R.SimRadio(w, {"rates": {}})
    app = await R.start_app(w, radio)
    faults = [True]
    by_url = {s.url: s for s in sources if not s.local}
    loads = []  # (attempt, source, metas listed)
    delays = [0.0] + [d for d in cfg["delays"] if d]

    def meta_of(url):
        return next((m for m in metas if not m.local and m.got == url), None)

    def fault(url, a):
        n = w.dec.pick("http.delay", len(delays))
        delay = delays[n] + 1e-4 * (a.n + 1)
        late = w.dec.chance("http.late", 0.5)
        idx = url in by_url
        p = (cfg["index_fault"] if idx else cfg["fault"]) if faults[0] else 0
        if not p or not w.dec.chance("http.fault", p):
            return "ok", delay, late
        ks = ["hang", "connect", "status", "payload", "oserror"] + (["notjson", "schema", "empty"] if idx else ["truncate", "extra", "html", "empty", "corrupt", "magic", "cut"])
        return ks[w.dec.pick("http.kind", len(ks))], delay, late

    def handler(url, kind):
        s = by_url.get(url)
        if s is not None:
            idx = s.index()
            good = list(s.metas)
            a = next(x for x in reversed(web.attempts) if x.url == url)
            if kind == "notjson":
                body = b"<html>"
            elif kind == "empty":
                body = b""
            elif kind == "schema":
                bad = json.loads(json.dumps(idx))
                lst = bad if isinstance(bad, list) else next(iter(bad.values()))
                for k in ("file_size", "fileSize", "fw_binary_url", "url", "firmware", "shA256"):
                    if lst and k in lst[-1]:
                        del lst[-1][k]
                        break
                else:
                    lst.append(7)
                body = json.dumps(bad).encode()
            else:
                body = json.dumps(idx).encode()
                loads.append((a, s, good))
            return 200, body
        m = meta_of(url)
        if m is None:
            w.violate("unknown-url", f"{url} was requested")
            return 404, b""
        body = m.data
        if kind in ("truncate", "extra", "html", "empty", "corrupt", "cut") or kind == "magic" and m.i["defect"] != "format":
            try:
                body = damage(body, kind, m.kind, m.i)
            except ValueError:
                body = b""
        return 200, body

    web = http.SimWeb(w, handler, fault)
    web.install()
    for s in sources:
        app.ota.register_provider(s.provider())
    sims, devs = [], []
    spec = {"logical": 1, "mac_caps": 0x8E, "manuf": 0, "eps": {"1": {"ins": [0], "outs": [0x19]}}}
    for i, d in enumerate(cfg["devices"]):
        sim = radio.add(R.SimDevice(w, common.ieee_of(i), common.nwk_of(i), {**spec, "manuf": d["manuf"]}, f"d{i}"))
        dev = common.ready_device(app, sim, R)
        dev.model, dev.manufacturer = d["model"], d["name"]
        sims.append(sim)
        devs.append(dev)
    lookups = []

    class Lookup:
        def __init__(self, op):
            self.q, self.d = op, op["d"]
            self.t0, self.t1 = w.now, None
            self.result = None
            self.cancelled = False
            self.radio = op.get("radio")
            lookups.append(self)

        async def main(self):
            from zigpy.zcl.clusters.general import Ota

            q = self.q
            cmd = Ota.ServerCommandDefs.query_next_image.schema(field_control=0 if q["hw"] is None else 1, manufacturer_code=q["manuf"], image_type=q["type"],
                                                                current_file_version=q["cur"], hardware_version=q["hw"])
            try:
                self.result = await app.ota.get_ota_images(devs[self.d], cmd)
            except asyncio.CancelledError:
                w.check(self.cancelled, "cancelled-by-another", lambda: f"lookup {lookups.index(self)} of d{self.d} was cancelled although only others were")
                if not self.cancelled:
                    self.t1 = w.now
                raise
            self.t1 = w.now
            self.judge()

        def judge(self):
            judge(self)

    class Listener:
        def __init__(self, d):
            self.d = d
            self.want = []

        def device_ota_image_query_result(self, result, cmd):
            for lk in self.want:
                if lk.t1 is None and lk.q["cur"] == cmd.current_file_version and lk.q["hw"] == cmd.hardware_version and lk.q["manuf"] == cmd.manufacturer_code \
                        and lk.q["type"] == cmd.image_type:
                    lk.result, lk.t1 = result, w.now
                    lk.judge()
                    lk.fut.set_result(None)
                    return
            w.violate("unasked-result", f"a lookup result {result} for {cmd} nobody asked for")

    listeners = []
    for d, dev in enumerate(devs):
        listeners.append(Listener(d))
        dev.add_listener(listeners[-1])

    def end(a):
        return float("inf") if a.t1 is None else a.t1

    def judge(lk):
        w.stats["lookups"] += 1
        t0, t1, q, d = lk.t0, lk.t1, lk.q, cfg["devices"][lk.d]
        who = f"lookup {lookups.index(lk)} (d{lk.d}, version {q['cur']:#x}, {t0:.3f}..{t1:.3f})"
        serving = [s for s in sources if s.serves(d)]
        w.check(t1 - t0 <= TIMEOUT * len([s for s in serving if not s.local]) + TIMEOUT + (5 if lk.radio else 0.5), "too-long", lambda: f"{who} took {t1 - t0} s")
        # indexes
        lo, hi = set(), set()
        for a, s, ms in loads:
            if a.outcome != "ok" or a.t0 > t1:
                continue
            inwin = a.t1 >= t0
            fresh = any(b is not a and b.t0 <= t0 and b.t0 > t0 - DAY and end(b) <= t0 for b in web.attempts if b.url == s.url)
            hi |= set(ms)
            if not inwin or s in serving and not fresh:
                lo |= set(ms)
        for s in serving:
            if not s.local:
                w.check(any(a.url == s.url and a.t0 > t1 - DAY - 100 and a.t0 <= t1 for a in web.attempts), "index-not-loaded",
                        lambda: f"{who} did not consult source {s.n} ({s.kind})")
        for s in sources:
            if s.local:
                if s in serving or any(x.t1 is not None and x.t1 < t0 and s.serves(cfg["devices"][x.d]) for x in lookups):
                    lo |= set(s.metas)
                if s in serving or any(x.t0 <= t1 and s.serves(cfg["devices"][x.d]) for x in lookups):
                    hi |= set(s.metas)
        lo, hi = {m for m in lo if m.listed}, {m for m in hi if m.listed}
        # downloads
        must, may = {}, {}  # image -> what it was downloaded as
        dmust, dmay = set(), set()
        refused = 0
        for m in sorted(hi, key=lambda m: m.n):
            newer = m.newer(q["cur"])
            if m.local:
                w.stats["local_images"] += 1
                pts = [c for t, c in m.history if t <= t0][-1:] + [c for t, c in m.history if t0 < t <= t1]
                imgs = [m.genuine(c) for c in pts]
                sure = None
                if m.surely < t0:
                    sure = m.genuine(m.data)
                    possible = [sure]
                else:
                    possible = imgs
                    if all(x is not None for x in imgs):
                        sure = imgs[0]
                if newer and m.compatible(d, q) and sure is not None and m in lo:
                    m.surely = min(m.surely, t1)
                had = m.surely < t0
                hadmay = any(x.t0 <= t1 and m.newer(x.q["cur"]) and m.compatible(cfg["devices"][x.d], x.q) for x in lookups)
                if hadmay:
                    possible.append(m.genuine(m.data))
                possible = [x for x in possible if x is not None]
            else:
                att = [a for a in web.attempts if a.url == m.got and a.t0 <= t1]
                if newer and m in lo and m.compatible(d, q):
                    ok = any(a.outcome == "ok" and m.genuine(a.body) is not None and a.t1 <= t1 for a in att)
                    w.check(ok or any(end(a) >= t0 for a in att), "not-tried", lambda: f"{who}: {m} was not downloaded: {att}")
                good = [(a, m.genuine(a.body)) for a in att if a.outcome == "ok"]
                good = [(a, g) for a, g in good if g is not None]
                had = any(a.t1 < t0 for a, g in good)
                hadmay = bool(good)
                over = [a for a in att if end(a) >= t0]
                sure = None
                if had:
                    sure = next(g for a, g in good if a.t1 < t0)
                elif over and len(over) == len([1 for a, g in good if a.t1 >= t0]):
                    sure = good[0][1]
                possible = [g for a, g in good]
                w.stats["bad_download"] += len([a for a in att if a.outcome == "ok"]) > len(good)
                w.stats["retried_download"] += len(att) > 1
            if newer:
                if sure is not None and m in lo and m.compatible(d, q, sure):
                    must[m] = sure
                for g in possible:
                    if m.compatible(d, q, g):
                        may.setdefault(m, []).append(g)
                    else:
                        refused += 1
            else:
                fit = [m.compatible(d, q)]
                if hadmay:
                    fit += [m.compatible(d, q, g) for g in possible]
                    if had and sure is not None:
                        fit = [m.compatible(d, q, sure)]
                if all(fit) and m in lo:
                    dmust.add(m)
                if any(fit):
                    dmay.add(m)
        w.stats["hardware_refused"] += refused
        # what was offered
        ups = []
        for r in lk.result.upgrades:
            m = find(r)
            w.check(m is not None and r.firmware is not None, "unknown-image", lambda: f"{who} was offered {r}")
            if m is None:
                return
            w.check(r.version == m.ver == r.metadata.file_version, "wrong-version", lambda: f"{r} of {m}")
            gs = may.get(m, [])
            w.check(bool(gs), "bad-offer", lambda: f"{who} was offered {m}: newer {m.newer(q['cur'])}, compatible {m.compatible(d, q)}, genuine {[m.genuine(a.body) is not None for a in web.attempts if a.url == m.got]}")
            data = r.firmware.serialize()
            gs = [g for g in gs if g[0] == data]
            w.check(bool(gs) or not may.get(m), "wrong-content", lambda: f"{who}: the content of {m} is not what was downloaded")
            ups.append((m, gs[0] if gs else None, data))
        w.check(len({m for m, *_ in ups}) == len(ups), "duplicate-offer", lambda: f"{who}: {ups}")
        keys = [m.rank(g) for m, g, _ in ups]
        w.check(keys == sorted(keys, reverse=True), "wrong-order", lambda: f"{who} was offered {[(m, k) for (m, *_), k in zip(ups, keys)]}")
        groups = {}
        for m, g, data in ups:
            groups.setdefault(m.rank(g), set()).add(data)
        w.check(all(len(v) == 1 for v in groups.values()), "ambiguous-offer", lambda: f"{who} was offered different images of equal rank: {ups}")
        # completeness
        off = {m for m, *_ in ups}
        mg, yg = {}, {}
        for m, g in must.items():
            mg.setdefault(m.rank(g), {})[m] = g[0]
        for m, gs in may.items():
            for g in gs:
                yg.setdefault(m.rank(g), set()).add((m, g[0]))
        exact = True
        for k, ms in mg.items():
            contents = set(ms.values())
            if len(contents) > 1:
                w.stats["collisions"] += 1
                w.check(not off & set(ms), "ambiguous-offer", lambda: f"{who} was offered {off} although {set(ms)} differ")
            elif {c for _, c in yg[k]} == contents:
                w.check(set(ms) <= off, "missing-offer", lambda: f"{who} was not offered {set(ms) - off}; offered {off}")
            else:
                exact = False
        w.stats["exact" if exact and {m for m in may} == set(must) else "sound_only"] += 1
        w.stats["offered"] += len(off)
        # downgrades
        downs = []
        for r in lk.result.downgrades:
            m = find(r)
            w.check(m is not None and m in dmay, "bad-downgrade", lambda: f"{who}: {m or r} listed as downgrade")
            if m is None:
                return
            g = None
            if r.firmware is not None:
                g = next((x for x in ([m.genuine(m.data)] if m.local else [m.genuine(a.body) for a in web.attempts if a.url == m.got]) if x is not None), None)
            downs.append((m, m.rank(g)))
        w.stats["downgrades"] += len(downs)
        have = {m for m, _ in downs}
        w.check(dmust <= have and len(have) == len(downs), "missing-downgrade", lambda: f"{who}: {dmust - have} not listed; {downs}")
        keys = [k for _, k in downs]
        w.check(keys == sorted(keys, reverse=True), "wrong-order", lambda: f"{who}: downgrades {downs}")
        w.state((tuple(sorted(s.kind for s in sources)), len(off), min(refused, 2), exact))

    def find(r):
        url, path = getattr(r.metadata, "url", None), getattr(r.metadata, "path", None)
        if url is not None:
            return meta_of(url)
        return next((m for m in metas if m.local and str(m.path) == str(path)), None)

    def start(op):
        lk = Lookup(op)
        if op.get("radio"):
            w.stats["asked_by_radio"] += 1
            lk.fut = asyncio.get_running_loop().create_future()
            listeners[lk.d].want.append(lk)
            hw = op["hw"]
            f = W.Zcl(True, False, sims[lk.d].next_tsn(), 1, W.u8(0 if hw is None else 1) + W.u16(op["manuf"]) + W.u16(op["type"]) + W.u32(op["cur"])
                      + (b"" if hw is None else W.u16(hw)), disable_dr=True)
            radio.reply(sims[lk.d], 1, 1, 0x0104, 0x19, f.bytes(), lossy=False)

            async def wait():
                await lk.fut

            lk.task = asyncio.create_task(wait())
        else:
            lk.task = asyncio.create_task(lk.main())
        return lk

    async def join(lk):
        done, _ = await asyncio.wait([lk.task], timeout=TIMEOUT * (len(sources) + 2) + 5)
        w.check(bool(done), "never-ended", lambda: f"lookup {lookups.index(lk)} of d{lk.d} never ended")
        if done and not lk.task.cancelled() and lk.task.exception() is not None:
            raise lk.task.exception()

    for op in plan["ops"]:
        if op["dt"]:
            await asyncio.sleep(op["dt"])
        k = op["op"]
        if k == "lookup":
            start(op)
        elif k == "cancel":
            live = [x for x in lookups if not x.task.done() and not x.radio]
            await asyncio.sleep(0.07)
            live = [x for x in live if not x.task.done()]
            if live:
                x = live[op["i"] % len(live)]
                x.cancelled = True
                x.task.cancel()
                w.stats["cancelled"] += 1
                w.stats["fault_cancel"] += 1
        elif k == "publish":
            await asyncio.sleep(0.013)
            sources[op["s"]].add(op["image"])
        elif k == "swap":
            s = sources[op["s"]]
            if s.kind == "local" and s.metas or s.kind == "advanced" and not any(o["op"] == "sleep" for o in plan["ops"]) \
                    and any(x.t1 is not None and x.t1 < w.now and s.serves(cfg["devices"][x.d]) for x in lookups):
                await asyncio.sleep(0.013)
                m = s.metas[op["i"] % len(s.metas)]
                how = op["how"]
                w.stats["fault_file_" + how] += how != "restore"
                if how == "delete":
                    m.path.unlink(missing_ok=True)
                    m.history.append((w.now, None))
                else:
                    c = m.data if how == "restore" else bytes([m.data[0]]) + m.data[1:-1] + bytes([m.data[-1] ^ 1])
                    m.path.write_bytes(c)
                    m.history.append((w.now, c))
    for lk in lookups:
        await join(lk)
    # without faults a lookup is complete
    faults[0] = False
    await asyncio.sleep(30)
    for d in range(len(devs)):
        await join(start({"op": "lookup", "d": d, "manuf": cfg["m"], "type": 1, "cur": 0x10, "hw": 3}))
    # sharing and freshness, over the whole history
    last = {}
    for a in web.attempts:
        b = last.get(a.url)
        if b is not None:
            w.check(end(b) <= a.t0, "not-shared", lambda: f"{b} and {a} overlap")
        last[a.url] = a
    for m in metas:
        good = [a.t1 for a in web.attempts if a.url == m.got and a.outcome == "ok" and m.genuine(a.body) is not None]
        again = [a for a in web.attempts if a.url == m.got and good and a.t0 > good[0]]
        w.check(not again, "downloaded-again", lambda: f"{m}, downloaded at {good[0]}, was downloaded again at {again[0].t0}")
    for s in sources:
        prev = None
        for a in web.attempts:
            if a.url != s.url:
                continue
            ok = any(a is x for x, *_ in loads) and a.outcome == "ok"
            w.check(prev is None or a.t0 - prev.t0 >= DAY - 1, "index-refetched", lambda: f"the index of source {s.n} was fetched at {prev.t0} and again at {a.t0}")
            if ok:
                prev = a
            else:
                w.stats["index_failed"] += 1
    for i, a in enumerate(web.attempts):
        w.stats["shared_download"] += len([x for x in lookups if x.t1 is not None and x.t0 < end(a) and x.t1 > a.t0]) > 1
    w.sample = {"cfg": cfg, "lookups": [(x.d, x.t0, x.t1, x.cancelled, x.result is not None and len(x.result.upgrades)) for x in lookups], "requests": len(web.attempts)}


PARTS = [Part("lookups", 1, generate, run, max_steps=400_000)]
