"""P31: opening a radio connection ends with a working link or the cause of the failure."""
import asyncio
import pathlib

from sim.runner import Part

PROPERTY = "P31"
LEVEL = "exploration"
RUNS = {"quick": 40000, "thorough": 1000000}
BATCH = 300
PRELOAD = ("zigpy.serial",)
REAL = ["zigpy.serial.create_serial_connection"]
STUBS = ["the event loop's create_connection (hosts)", "serial_asyncio's create_serial_connection (ports)", "clock and scheduler"]
RULE = ("a run = 1..6 overlapping attempts to open network addresses (socket:// or tcp://, names, IPv4, IPv6, with and without a port) and serial ports (text or path, every "
        "combination of the flow control arguments) which open after 0..60 s, are refused, fail by name lookup, hang, fail with plain or wrapped errors, or are cancelled by "
        "their caller; distinct = distinct event sequence")
STATES = "(kind, behaviour, outcome) per attempt"
PROBES = ["socket_ok", "socket_timeout", "socket_error", "socket_cancelled", "serial_ok", "serial_unwrapped", "serial_bare", "serial_oserror", "serial_cancelled", "default_port", "overlap"]
ASSUMPTIONS = ["a serial port may take any time to open (there is no limit on it in the code)"]


def gen(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        op = {"dt": rng.choice([0, 0, 0.5, 2, 6]), "cancel": rng.choice([None, None, None, 0.1, 1.3, 4.7, 20])}
        if rng.random() < 0.5:
            op["kind"] = "socket"
            op["scheme"] = rng.choice(["socket", "tcp", "tcp"])
            op["host"] = rng.choice(["radio.local", "192.168.1.7", "[fe80::1]", "bridge"])
            op["port"] = rng.choice([None, None, 6638, 1, 80, 9999, 65535])
            op["tail"] = rng.choice(["", "", "/"])
            op["how"] = rng.choice(["open", "open", "open", "refused", "lookup", "hang"])
            op["after"] = rng.choice([0, 0.2, 1, 3, 4.8, 5.2, 8, 60])
        else:
            op["kind"] = "serial"
            op["url"] = rng.choice(["/dev/ttyUSB0", "/dev/serial/by-id/usb-Radio_1", "COM3", "rfc2217://bridge:7000", "loop://"])
            op["path"] = rng.random() < 0.3 and "://" not in op["url"]
            op["how"] = rng.choice(["open", "open", "open", "wrapped", "wrapped", "bare", "oserror", "hang"])
            op["after"] = rng.choice([0, 0.2, 3, 7, 60])
        args = {}
        if rng.random() < 0.5:
            args["baudrate"] = rng.choice([9600, 57600, 115200, 460800])
        if rng.random() < 0.5:
            args["flow_control"] = rng.choice(["hardware", "software", None])
        for k in ("xonxoff", "rtscts"):
            if rng.random() < 0.3:
                args[k] = rng.random() < 0.5
        if rng.random() < 0.2:
            args["exclusive"] = rng.random() < 0.5
        if rng.random() < 0.2 and op["kind"] == "serial":
            args["timeout"] = rng.choice([0, 3])
        op["args"] = args
        ops.append(op)
    return {"cfg": {}, "ops": ops}


async def run(w, plan):
    import serial as pyserial
    import zigpy.serial as Z

    loop = asyncio.get_running_loop()
    attempts = []
    try:
        import serial_asyncio_fast as lib
    except ImportError:
        import serial_asyncio as lib

    class Proto(asyncio.Protocol):
        def __init__(self, a):
            self.a = a

    class Transport:
        def __init__(self):
            self.closed = False

        def close(self):
            self.closed = True

        abort = close

        def is_closing(self):
            return self.closed

    class Attempt:
        def __init__(self, n, op):
            self.n, self.op, self.t0 = n, op, w.now
            self.opened, self.finished, self.outcome, self.cancelled_at, self.made = [], 0, None, None, None
            self.error = None
            attempts.append(self)

        def factory(self):
            return Proto(self)

    async def opening(a, factory, seen):
        """What the operating system does."""
        a.opened.append(seen)
        w.log(f"open-{a.op['kind']}-{a.op['how']}", a.n, sorted(seen.items(), key=str))
        op = a.op
        try:
            if op["how"] == "hang":
                await loop.create_future()
            if op["after"]:
                await asyncio.sleep(op["after"])
            if op["how"] == "refused":
                a.error = ConnectionRefusedError(111, "Connection refused")
                raise a.error
            if op["how"] == "lookup":
                a.error = OSError(-2, "Name or service not known")
                raise a.error
            if op["how"] == "oserror":
                a.error = FileNotFoundError(2, "No such file")
                raise a.error
            if op["how"] == "bare":
                a.error = pyserial.SerialException("could not configure port")
                raise a.error
            if op["how"] == "wrapped":
                a.error = PermissionError(13, "Permission denied") if a.n % 2 else FileNotFoundError(2, "No such file")
                try:
                    raise a.error
                except OSError as e:
                    raise pyserial.SerialException(2, f"could not open port: {e}")  # noqa: B904
            a.made = (Transport(), factory())
            return a.made
        finally:
            a.finished += 1

    def whose(factory):
        p = factory()
        return p.a if isinstance(p, Proto) else None

    async def create_connection(protocol_factory, host=None, port=None, **kw):
        a = whose(protocol_factory)
        w.check(a is not None, "wrong-factory", lambda: "the protocol factory is not the caller's")
        return await opening(a, protocol_factory, {"host": host, "port": port, **{k: v for k, v in kw.items() if v is not None}})

    this = loop

    async def create_serial(loop, protocol_factory, *pos, **kw):
        a = whose(protocol_factory)
        w.check(loop is this, "wrong-loop", lambda: f"opened on {loop!r}")
        if pos:
            kw = {"url": pos[0], **kw}
        return await opening(a, protocol_factory, dict(kw))

    async def main(a):
        op = a.op
        if op["kind"] == "socket":
            url = f"{op['scheme']}://{op['host']}" + (f":{op['port']}" if op["port"] is not None else "") + op["tail"]
        else:
            url = pathlib.PurePosixPath(op["url"]) if op["path"] else op["url"]
        try:
            a.outcome = ("ok", await Z.create_serial_connection(loop, a.factory, url, **op["args"]))
        except BaseException as e:  # noqa: BLE001
            a.outcome = ("raised", e)
        a.t1 = w.now
        w.log(f"end-{type(a.outcome[1]).__name__}", a.n)

    old = lib.create_serial_connection
    loop.create_connection = create_connection
    lib.create_serial_connection = create_serial
    try:
        tasks = []
        for n, op in enumerate(plan["ops"]):
            if op["dt"]:
                await asyncio.sleep(op["dt"])
            w.stats["overlap"] += any(x.outcome is None for x in attempts)
            a = Attempt(n, op)
            t = asyncio.create_task(main(a))
            tasks.append(t)
            if op["cancel"] is not None or op["how"] == "hang" and op["kind"] == "serial":
                def stop(a=a, t=t):
                    if a.outcome is None:
                        a.cancelled_at = w.now
                        w.stats["fault_cancel"] += 1
                        t.cancel()

                loop.call_later(op["cancel"] if op["cancel"] is not None else 45, stop)
        done, pending = await asyncio.wait(tasks, timeout=300)
        w.check(not pending, "never-ended", lambda: f"attempts {[a.n for a in attempts if a.outcome is None]} never ended")
    finally:
        lib.create_serial_connection = old
        del loop.create_connection
    for a in attempts:
        if a.outcome is None:
            continue
        op, args, out = a.op, a.op["args"], a.outcome
        kind, how = op["kind"], op["how"]
        dur = a.t1 - a.t0
        limit = 5.0 if kind == "socket" else float("inf")
        ready = float("inf") if how == "hang" else op["after"]
        stop = float("inf") if a.cancelled_at is None else a.cancelled_at - a.t0
        w.state(kind, how, out[0], type(out[1]).__name__)
        if how not in ("open",):
            w.stats[f"fault_{kind}_{how}"] += 1
        desc = f"attempt {a.n} ({kind}, {how} after {op['after']} s)"
        w.check(a.finished == len(a.opened), "left-open", lambda: f"{desc} ended and left its connection being opened")
        end = min(ready, limit, stop)
        w.check(abs(dur - end) < 1e-3, "wrong-time", lambda: f"{desc} ended after {dur} s instead of {end} s")
        if not a.opened:
            w.check(a.cancelled_at is not None, "not-tried", lambda: f"{desc}: nothing was opened")
            continue
        w.check(len(a.opened) == 1, "opened-twice", lambda: f"{desc}: {a.opened}")
        seen = a.opened[0]
        if kind == "socket":
            host = op["host"].strip("[]")
            port = 6638 if op["port"] is None else op["port"]
            w.stats["default_port"] += op["port"] is None
            w.check((seen.get("host"), seen.get("port")) == (host, port), "wrong-address", lambda: f"{desc}: {seen} instead of {host}:{port}")
        else:
            want = {"url": op["url"], "baudrate": args.get("baudrate", 115200)}
            if "flow_control" in args:
                want["xonxoff"] = args["flow_control"] == "software"
                want["rtscts"] = args["flow_control"] == "hardware"
            else:
                want["xonxoff"] = args.get("xonxoff", False)
                want["rtscts"] = args.get("rtscts", False)
            want["exclusive"] = args.get("exclusive")
            if "timeout" in args:
                want["timeout"] = args["timeout"]
            got = {k: seen.get(k, False if k in ("xonxoff", "rtscts") else None) for k in want}
            extra = set(seen) - set(want)
            w.check(got == want and not extra, "wrong-settings", lambda: f"{desc} with {args}: {seen} instead of {want}")
        if end == stop and stop < min(ready, limit):
            w.stats[f"{kind}_cancelled"] += 1
            w.check(isinstance(out[1], asyncio.CancelledError), "wrong-outcome", lambda: f"{desc}: cancelled, {out!r}")
        elif limit < ready:
            w.stats["socket_timeout"] += 1
            w.check(out[0] == "raised" and isinstance(out[1], TimeoutError), "wrong-outcome", lambda: f"{desc}: {out!r} instead of a timeout")
        elif stop == ready:
            pass
        elif how == "open":
            w.stats[f"{kind}_ok"] += 1
            ok = out[0] == "ok" and isinstance(out[1], tuple) and len(out[1]) == 2
            w.check(ok and out[1][0] is a.made[0] and out[1][1] is a.made[1], "wrong-link", lambda: f"{desc}: {out!r} instead of its transport and protocol")
            w.check(not a.made[0].closed, "closed", lambda: f"{desc}: the link was closed")
        else:
            w.stats["socket_error" if kind == "socket" else {"wrapped": "serial_unwrapped", "bare": "serial_bare", "oserror": "serial_oserror"}[how]] += 1
            w.check(out[0] == "raised" and out[1] is a.error, "wrong-error", lambda: f"{desc}: {out!r} instead of {a.error!r}")

    w.sample = {"ops": plan["ops"][:3]}


PARTS = [Part("open", 1, gen, run)]
