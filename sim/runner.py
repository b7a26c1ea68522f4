"""Seeded search, minimisation, replay and evidence."""
from __future__ import annotations

import argparse
import collections
import copy
import hashlib
import importlib
import json
import os
import pathlib
import pickle
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import core

ROOT = pathlib.Path(__file__).resolve().parent.parent
KNOWN = ROOT / "known_findings.txt"
REPLAYS = ROOT / "replays"
RUN_WALL_S = 60
KEEP_GOING = False

clock = core._real_perf


class Part:
    """One kind of simulated run of a property."""

    def __init__(self, name, weight, generate, run, max_steps=400_000, setup=None):
        self.name, self.weight = name, weight
        self.generate, self.run = generate, run
        self.max_steps, self.setup = max_steps, setup


def load_property(pid):
    return importlib.import_module(f"scen.{pid.lower()}")


def preload(mod):
    """Import once what every forked run needs."""
    for name in ("sim.wire", "sim.radio", "sim.storage", "zigpy.ota", "zigpy.backups", "zigpy.topology", *getattr(mod, "PRELOAD", ())):
        importlib.import_module(name)


def schedule(mod, base_seed, n):
    """Deterministic list of (index, part, seed)."""
    tot = sum(p.weight for p in mod.PARTS)
    acc = [0.0] * len(mod.PARTS)
    for i in range(n):
        # smooth weighted round robin
        for k, p in enumerate(mod.PARTS):
            acc[k] += p.weight / tot
        k = max(range(len(acc)), key=lambda j: (acc[j], -j))
        acc[k] -= 1.0
        seed = int.from_bytes(
            hashlib.blake2b(f"{mod.PROPERTY}|{mod.PARTS[k].name}|{base_seed}|{i}".encode(), digest_size=6).digest(), "big"
        )
        yield i, mod.PARTS[k], seed


def gen_plan(part, seed, tier):
    return json.loads(json.dumps(part.generate(random.Random(f"plan{seed}"), tier)))


def execute(mod, part, plan, seed, decisions=None, trace=False, scratch=None):
    dec = core.Decisions(seed=seed) if decisions is None else core.Decisions(recorded=decisions)
    own = scratch is None
    if own:
        scratch = make_scratch()
    plan = copy.deepcopy(plan)
    old = None

    def on_alarm(signum, frame):
        w = core.WORLD
        if w is not None:
            w.wall_timeout = True
        signal.setitimer(signal.ITIMER_REAL, 5)
        raise core.SimWallTimeout()

    try:
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, getattr(mod, "RUN_WALL_S", RUN_WALL_S))
        world = core.run_world(
            lambda w: part.run(w, plan),
            dec,
            seed_int=seed,
            trace=trace,
            scratch=scratch,
            max_steps=part.max_steps,
            setup=part.setup,
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if old is not None:
            signal.signal(signal.SIGALRM, old)
        if own:
            shutil.rmtree(scratch, ignore_errors=True)
    return {
        "violations": [v.as_dict() for v in world.violations],
        "stats": dict(world.stats),
        "digest": world.digest.hexdigest(),
        "shape": world.shape.hexdigest(),
        "states": world.states,
        "decisions": dec.taken,
        "lines": world.lines,
        "loop_errors": world.loop_errors,
        "sample": getattr(world, "sample", None),
    }


_SCRATCH_ROOT = None


def scratch_root():
    global _SCRATCH_ROOT
    if _SCRATCH_ROOT is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _SCRATCH_ROOT = tempfile.mkdtemp(prefix="zigsim-", dir=base)
    return _SCRATCH_ROOT


def make_scratch():
    return tempfile.mkdtemp(prefix="r", dir=scratch_root())


def drop_scratch():
    if _SCRATCH_ROOT and os.path.basename(_SCRATCH_ROOT).startswith("zigsim-"):
        shutil.rmtree(_SCRATCH_ROOT, ignore_errors=True)


# ------------------------------------------------------------- isolation
def in_child(fn, wall=RUN_WALL_S + 60):
    """Run fn() in a forked child (pristine module state); returns its value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                out = ("err", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
            data = pickle.dumps(out, protocol=pickle.HIGHEST_PROTOCOL)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa: BLE001
            code = 3
        os._exit(code)
    os.close(w)
    buf = []
    end = clock() + wall
    killed = False
    while True:
        left = end - clock()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    if killed:
        return ("killed", "child exceeded its wall allowance")
    data = b"".join(buf)
    if not data:
        return ("err", "child died without a result")
    return pickle.loads(data)


# ------------------------------------------------------------- known findings
def load_known(pid):
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out.append(d)
    return out


def split_known(violations, known):
    rules = {k["rule"] for k in known}
    bad = [v for v in violations if v["rule"] not in rules]
    hit = {v["rule"] for v in violations if v["rule"] in rules}
    return bad, hit


# ------------------------------------------------------------- workers
def worker_loop(mod, tier, items, wfd, deadline):
    """Runs its share of seeds; streams results as length-prefixed pickles."""
    known = load_known(mod.PROPERTY)
    out = os.fdopen(wfd, "wb")

    def send(obj):
        b = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
        out.write(struct.pack("<I", len(b)) + b)
        out.flush()

    agg = fresh_agg()
    last = clock()
    batch = getattr(mod, "BATCH", 1)
    pos = 0
    while pos < len(items):
        chunk = items[pos : pos + batch]
        pos += batch
        if clock() > deadline:
            agg["skipped"] += len(items) - pos + len(chunk)
            break

        def job():
            res = []
            for idx, pi, seed in chunk:
                part = mod.PARTS[pi]
                try:
                    plan = gen_plan(part, seed, tier)
                    r = execute(mod, part, plan, seed)
                    r["nops"] = len(plan.get("ops", []))
                    r["lines"] = None
                    bad, _ = split_known(r["violations"], known)
                    if not bad:
                        r["decisions"] = len(r["decisions"])
                    res.append((idx, pi, seed, "ok", r))
                    if bad and not KEEP_GOING:
                        break
                except BaseException as e:  # noqa: BLE001
                    res.append((idx, pi, seed, "err", "".join(traceback.format_exception(type(e), e, e.__traceback__))))
                    break
            return res

        st, val = in_child(job, wall=RUN_WALL_S * 2 + 60)
        if st != "ok":
            # an unfinished child: pin it down run by run
            for idx, pi, seed in chunk:
                agg["killed"].append((idx, pi, seed, st, str(val)[-4000:]))
        else:
            for idx, pi, seed, s, r in val:
                if s == "err":
                    agg["errors"].append((idx, pi, seed, r[-6000:]))
                    continue
                bad, hit = split_known(r["violations"], known)
                merge(agg, r, hit, mod.PARTS[pi].name)
                if bad:
                    agg["bad"].append((idx, pi, seed, bad, r["digest"]))
        if clock() - last > 0.5 or agg["bad"] or agg["errors"] or agg["killed"]:
            send(agg)
            agg = fresh_agg()
            last = clock()
    send(agg)
    send(None)
    out.close()


def fresh_agg():
    return {
        "runs": 0, "steps": 0, "stats": collections.Counter(), "shapes": set(), "states": set(), "ops": 0,
        "decisions": 0, "bad": [], "errors": [], "killed": [], "known": collections.Counter(), "skipped": 0,
        "parts": collections.Counter(), "nontrivial": 0, "samples": [], "loop_errors": collections.Counter(),
    }


CAP = 400_000


def merge(agg, r, hit, part):
    agg["runs"] += 1
    agg["parts"][part] += 1
    agg["stats"].update(r["stats"])
    if len(agg["shapes"]) < CAP:
        agg["shapes"].add(r["shape"])
    if len(agg["states"]) < CAP:
        agg["states"] |= r["states"]
    agg["ops"] += r["nops"]
    agg["decisions"] += r["decisions"] if isinstance(r["decisions"], int) else len(r["decisions"])
    for h in hit:
        agg["known"][h] += 1
    for m, e in r["loop_errors"]:
        agg["loop_errors"][(m[:60], e[:120])] += 1
    if r.get("sample") and len(agg["samples"]) < 2:
        agg["samples"].append(r["sample"])


def combine(a, b):
    for k in ("stats", "known", "parts", "loop_errors"):
        a[k].update(b[k])
    for k in ("runs", "ops", "decisions", "skipped", "nontrivial"):
        a[k] += b[k]
    for k in ("shapes", "states"):
        if len(a[k]) < CAP:
            a[k] |= b[k]
    for k in ("bad", "errors", "killed"):
        a[k] += b[k]
    if len(a["samples"]) < 4:
        a["samples"] += b["samples"]


def run_pool(mod, tier, base_seed, n, jobs, budget, stop_on_bad=True):
    items = [(i, mod.PARTS.index(p), s) for i, p, s in schedule(mod, base_seed, n)]
    deadline = clock() + budget
    readers = {}
    pids = []
    for j in range(jobs):
        share = items[j::jobs]
        if not share:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                for o in readers:
                    os.close(o)
                worker_loop(mod, tier, share, w, deadline)
            except BrokenPipeError:
                pass
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            os._exit(code)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(w)
        readers[r] = bytearray()
        pids.append(pid)
    total = fresh_agg()
    done = 0
    lost = 0
    stop = False
    grace = None
    while readers:
        rl, _, _ = select.select(list(readers), [], [], 1.0)
        for fd in rl:
            b = os.read(fd, 1 << 20)
            buf = readers[fd]
            if not b:
                os.close(fd)
                del readers[fd]
                if not buf.endswith(b"END"):
                    lost += 1
                continue
            buf += b
            while len(buf) >= 4 and buf != b"END":
                ln = struct.unpack("<I", bytes(buf[:4]))[0]
                if len(buf) < 4 + ln:
                    break
                obj = pickle.loads(bytes(buf[4 : 4 + ln]))
                del buf[: 4 + ln]
                if obj is None:
                    done += 1
                    buf[:] = b"END"
                    break
                combine(total, obj)
                if stop_on_bad and (obj["bad"] or obj["errors"] or obj["killed"]):
                    stop = True
        if stop:
            break
    if stop:
        for pid in pids:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        for fd in readers:
            os.close(fd)
    for pid in pids:
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    total["lost_workers"] = 0 if stop else lost
    return total


# ------------------------------------------------------------- minimise
def same_class(mod, part, plan, seed, decisions, rule):
    st, val = in_child(lambda: execute(mod, part, plan, seed, decisions))
    if st != "ok":
        return None
    for v in val["violations"]:
        if v["rule"] == rule:
            return val
    return None


def ddmin(items, test, budget_end):
    """Smallest sublist (by chunk removal) for which test(list) holds."""
    n = 2
    while len(items) >= 1 and clock() < budget_end:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and clock() < budget_end:
            cand = items[:i] + items[i + size :]
            if test(cand):
                items = cand
                reduced = True
            else:
                i += size
        if not reduced or not items:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(n - 1, 2)
    return items


def minimise(mod, part, plan, seed, rule, budget=60.0):
    """Returns (plan, decisions, result) or None if not reproducible."""
    end = clock() + budget
    first = same_class(mod, part, plan, seed, None, rule)
    if first is None:
        return None
    exp = same_class(mod, part, plan, seed, first["decisions"], rule)
    if exp is None:
        return None
    cur_plan, cur_dec, cur = plan, exp["decisions"], exp

    def try_plan(p, d):
        nonlocal cur_plan, cur_dec, cur
        r = same_class(mod, part, p, seed, d, rule)
        if r is not None:
            cur_plan, cur_dec, cur = p, r["decisions"], r
            return True
        return False

    # no faults at all?
    try_plan(cur_plan, {})
    ops = ddmin(list(cur_plan["ops"]), lambda o: try_plan({**cur_plan, "ops": o}, cur_dec), end)
    keys = list(cur_dec)
    ddmin(keys, lambda ks: try_plan(cur_plan, {k: cur_dec[k] for k in ks if k in cur_dec}), end)
    ddmin(list(cur_plan["ops"]), lambda o: try_plan({**cur_plan, "ops": o}, cur_dec), end)
    # simpler field values
    simp = getattr(mod, "simplify", None)
    if simp is not None:
        for cand in simp(cur_plan):
            if clock() > end:
                break
            try_plan(cand, cur_dec)
    return cur_plan, cur_dec, cur


def write_replay(mod, part, plan, seed, decisions, result, rule, tier, name=None):
    REPLAYS.mkdir(exist_ok=True)
    v = next(v for v in result["violations"] if v["rule"] == rule)
    body = {
        "property": mod.PROPERTY,
        "part": part.name,
        "seed": seed,
        "tier": tier,
        "rule": rule,
        "message": v["message"],
        "sim_time": v["sim_time"],
        "digest": result["digest"],
        "plan": plan,
        "decisions": decisions,
    }
    path = REPLAYS / (name or f"{mod.PROPERTY}-{part.name}-{seed}.json")
    path.write_text(json.dumps(body, indent=1, default=str) + "\n")
    return path


def replay(path, verbose=False):
    body = json.loads(pathlib.Path(path).read_text())
    mod = load_property(body["property"])
    part = next(p for p in mod.PARTS if p.name == body["part"])
    res = execute(mod, part, body["plan"], body["seed"], body["decisions"], trace=verbose)
    if verbose:
        for ln in res["lines"]:
            print(ln)
    hit = [v for v in res["violations"] if v["rule"] == body["rule"]]
    for v in res["violations"]:
        print(f"  t={v['sim_time']} {v['rule']}: {v['message']}")
    print("digest", res["digest"], "recorded", body["digest"], "match" if res["digest"] == body["digest"] else "DIFFERS")
    if hit:
        print(f"VIOLATION property={body['property']} replay={path}")
        return 1
    print("not reproduced")
    return 0


# ------------------------------------------------------------- check
def check(pid, tier, base_seed, n=None, jobs=None, budget=None, evidence=True, keep_going=False):
    global KEEP_GOING
    KEEP_GOING = keep_going
    t0 = clock()
    mod = load_property(pid)
    preload(mod)
    n = n or mod.RUNS[tier]
    jobs = jobs or min(8, os.cpu_count() or 1)
    budget = budget or (600 if tier == "quick" else 3 * 3600)
    known = load_known(pid)
    import gc

    gc.collect()
    gc.freeze()
    print(f"property={pid} tier={tier} seed={base_seed} runs={n} jobs={jobs}", flush=True)
    total = run_pool(mod, tier, base_seed, n, jobs, budget, stop_on_bad=not keep_going)
    wall = clock() - t0
    code = 0
    nviol = 0
    if total["bad"]:
        total["bad"].sort(key=lambda x: x[0])
        if keep_going:
            rules = collections.Counter(v["rule"] for b in total["bad"] for v in b[3])
            print("rules:", dict(rules))
        seen = set()
        for idx, pi, seed, bad, digest in total["bad"]:
            rule = bad[0]["rule"]
            if rule in seen:
                continue
            seen.add(rule)
            if len(seen) > (6 if keep_going else 1):
                break
            part = mod.PARTS[pi]
            plan = gen_plan(part, seed, tier)
            m = minimise(mod, part, plan, seed, rule, budget=25 if keep_going else 60)
            if m is None:
                print(f"harness: run {idx} (part {part.name} seed {seed}) reported {rule} once but did not repeat:"
                      f" {bad[0]['message'][:500]}", file=sys.stderr)
                if code == 0:
                    code = 2
                continue
            mplan, mdec, mres = m
            path = write_replay(mod, part, mplan, seed, mdec, mres, rule, tier)
            # must reproduce in a fresh process
            pr = subprocess.run(
                [sys.executable, str(ROOT / "check.py"), "replay", str(path)],
                capture_output=True, text=True, timeout=600,
            )
            if pr.returncode != 1:
                print("harness: replay in a fresh process did not reproduce:\n" + pr.stdout[-2000:] + pr.stderr[-2000:], file=sys.stderr)
                if code == 0:
                    code = 2
                continue
            nviol += 1
            code = 1
            v = next(v for v in mres["violations"] if v["rule"] == rule)
            print(f"violation of {pid}: {rule}: {v['message'][:3000]}")
            print(f"  part={part.name} seed={seed} ops={len(mplan['ops'])} decisions={len(mdec)} digest={mres['digest']}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
    if total["killed"]:
        # a run that neither ended nor could be interrupted: confirm alone
        for idx, pi, seed, st, msg in total["killed"][:2]:
            part = mod.PARTS[pi]
            plan = gen_plan(part, seed, tier)
            st2, val = in_child(lambda: execute(mod, part, plan, seed), wall=RUN_WALL_S * 2)
            print(f"harness: run {idx} part {part.name} seed {seed} {st}: {msg}; alone: {st2}", file=sys.stderr)
        if code == 0:
            code = 2
    if total["errors"]:
        for idx, pi, seed, tb in total["errors"][:3]:
            print(f"harness: run {idx} part {mod.PARTS[pi].name} seed {seed} failed:\n{tb}", file=sys.stderr)
        if code == 0:
            code = 2
    if total.get("lost_workers"):
        print(f"harness: {total['lost_workers']} worker(s) died", file=sys.stderr)
        if code == 0:
            code = 2
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']} (seen in {total['known'].get(k['rule'], 0)} runs)")
    if total["skipped"]:
        print(f"note: {total['skipped']} runs skipped (wall budget)")
    if evidence:
        write_evidence(mod, tier, base_seed, total, wall, nviol, n)
    st = total["stats"]
    faults = {k: v for k, v in sorted(st.items()) if k.startswith("fault_")}
    print(f"runs={total['runs']} wall={wall:.1f}s ops={total['ops']} distinct_shapes={len(total['shapes'])} "
          f"states={len(total['states'])} sim_h={st.get('sim_ms', 0) / 3.6e6:.1f} faults={faults}")
    zero = [p for p in getattr(mod, "PROBES", []) if not st.get(p)]
    if zero and total["runs"] >= 1000:
        print("probes at zero:", zero)
    if keep_going and total["loop_errors"]:
        print("loop errors:", total["loop_errors"].most_common(6))
    return code


def write_evidence(mod, tier, seed, total, wall, nviol, n):
    st = total["stats"]
    ev = {
        "property": mod.PROPERTY,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "wall_s": round(wall, 2),
        "violations": nviol,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(total["shapes"]),
            "rule": mod.RULE,
            "samples": total["samples"][:3] or [{"note": "no sample recorded"}],
            "planned_runs": n,
            "skipped_runs": total["skipped"],
            "runs_per_part": dict(total["parts"]),
            "runs_per_hour": int(total["runs"] / max(wall, 1e-6) * 3600),
            "seeds_per_hour": int(total["runs"] / max(wall, 1e-6) * 3600),
            "simulated_seconds": round(st.get("sim_ms", 0) / 1000, 1),
            "loop_callbacks": st.get("steps", 0),
            "plan_operations": total["ops"],
            "nondefault_decisions": total["decisions"],
            "faults_injected": {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault_")},
            "probes": {k: v for k, v in sorted(st.items()) if not k.startswith("fault_") and k not in ("steps", "sim_ms")},
            "distinct_states": len(total["states"]),
            "distinct_states_measure": getattr(mod, "STATES", "abstract states noted by the scenario"),
            "distinct_interleavings": len(total["shapes"]),
            "distinct_interleavings_measure": "distinct sequences of observable event kinds over a whole run",
            "known_findings_hit": dict(total["known"]),
            "components_real": list(mod.REAL),
            "components_stubbed": list(mod.STUBS),
        },
    }
    d = ROOT / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{mod.PROPERTY}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")


def determinism(pid, tier, base_seed, n, jobs):
    """digest of every run -> one line each (compared by the caller)."""
    mod = load_property(pid)
    for i, part, seed in schedule(mod, base_seed, n):
        plan = gen_plan(part, seed, tier)
        if jobs == 0:
            r = execute(mod, part, plan, seed)
        else:
            st, r = in_child(lambda: execute(mod, part, plan, seed))
            if st != "ok":
                print(i, "ERR", r)
                continue
        print(i, part.name, seed, r["digest"], len(r["violations"]))


def selftest():
    """Same seed, other process, other run order: the same execution."""
    bad = 0
    for pid in ("P05", "P08"):
        outs = []
        for jobs in ("0", "1"):
            pr = subprocess.run([sys.executable, str(ROOT / "check.py"), "determinism", pid, "--runs", "12", "--jobs", jobs],
                                capture_output=True, text=True, timeout=600)
            outs.append(pr.stdout)
            if pr.returncode:
                print(pr.stderr[-2000:])
                bad = 1
        if outs[0] != outs[1] or len(outs[0].splitlines()) != 12:
            print("selftest: executions differ between processes for", pid)
            bad = 1
    print("selftest", "failed" if bad else "ok")
    return bad


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("what", help="property id, or: replay, determinism")
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--run-seed", help="part:seed – run one seed verbosely")
    a = ap.parse_args(argv)
    core.install()
    try:
        if a.what == "replay":
            return replay(a.arg, a.v)
        if a.what == "selftest":
            return selftest()
        if a.what == "determinism":
            determinism(a.arg, a.tier, a.seed, a.runs or 50, 1 if a.jobs is None else a.jobs)
            return 0
        if a.run_seed:
            mod = load_property(a.what)
            pn, s = a.run_seed.split(":")
            part = next(p for p in mod.PARTS if p.name == pn)
            plan = gen_plan(part, int(s), a.tier)
            print(json.dumps(plan, indent=1)[:20000])
            r = execute(mod, part, plan, int(s), trace=True)
            for ln in r["lines"]:
                print(ln)
            print(r["violations"], r["stats"])
            return 0
        return check(a.what, a.tier, a.seed, a.runs, a.jobs, a.budget, not a.no_evidence, a.keep_going)
    finally:
        drop_scratch()
