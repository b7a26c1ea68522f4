"""P32: diagnostic counters never lose a count nor go backwards."""
import asyncio

from sim.runner import Part

PROPERTY = "P32"
LEVEL = "exploration"
RUNS = {"quick": 40000, "thorough": 1000000}
BATCH = 300
PRELOAD = ("zigpy.state",)
REAL = ["zigpy.state.State / CounterGroups / CounterGroup / Counter"]
STUBS = ["radio firmware (events, raw counters which wrap around, restarts)", "the radio library's polling", "clock and scheduler"]
RULE = ("a run = a radio with 1..4 raw counters of 4, 8, 16 or 32 bits counting random events, polled at drawn times into the counters of the application's state, with "
        "failed polls, radio restarts (detected by the library or not), whole groups reset, own counts by increments and by paths of tags; distinct = distinct event sequence")
STATES = "(restarts, wraps, resets, tags) per run"
PROBES = ["polls", "same", "wrapped", "restarted", "reset", "group_reset", "incremented", "tagged", "poll_failed"]
ASSUMPTIONS = ["a raw value below the previous one means the radio started counting from zero (the documented meaning)", "the events of the interval in which the radio restarted before the restart are unknown to the library"]


def gen(rng, tier):
    cs = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        cs.append({"bits": rng.choice([4, 8, 8, 16, 32]), "rate": rng.choice([0.1, 1, 5, 40]), "start": rng.choice([0, 0, 3, 12])})
    ops = []
    for _ in range(rng.choice([5, 15, 40])):
        k = rng.choice(["poll"] * 8 + ["restart", "restart_seen", "reset", "group_reset", "inc", "inc", "tags", "tags", "tags", "fail", "set", "tree_reset"])
        op = {"op": k, "c": rng.randrange(len(cs)), "dt": rng.choice([0, 0, 0.2, 1, 3, 10])}
        if k in ("inc", "set"):
            op["by"] = rng.choice([0, 1, 1, 2, 17])
        if k == "tags":
            op["path"] = [rng.choice(["a", "b", 3, "c"]) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
            op["name"] = rng.choice(["tx", "rx", 7])
            op["group"] = rng.choice(["counters", "broadcast_counters", "device_counters", "group_counters"])
        ops.append(op)
    return {"cfg": {"cs": cs}, "ops": ops}


async def run(w, plan):
    import zigpy.state as S

    cs = plan["cfg"]["cs"]
    rng = w.dec
    state = S.State()
    group = state.counters["radio"]
    own = state.counters["own"]
    raw = [0] * len(cs)  # of the radio
    want = []  # what the counter has to say
    last = []
    restarts = []
    for i, c in enumerate(cs):
        n = c["start"]
        cnt = S.Counter(f"c{i}", n) if n else group[f"c{i}"]
        group[f"c{i}"] = cnt
        raw[i] = n
        want.append(n)
        last.append(n)
        restarts.append(0)
    mine = 0
    tagged, tag_resets = {}, {}

    def key_path(g, path):
        return (g, *path)

    def verify(what):
        for i in range(len(cs)):
            cnt = group[f"c{i}"]
            w.check(cnt.value == want[i], "wrong-value", lambda: f"after {what}: counter {i} says {cnt.value} instead of {want[i]}")
            w.check(int(cnt) == cnt.value and cnt == cnt.value and cnt.name == f"c{i}", "inconsistent", lambda: f"after {what}: {cnt}")
            w.check(cnt.reset_count == restarts[i], "wrong-restarts", lambda: f"after {what}: counter {i} was reset {cnt.reset_count} times instead of {restarts[i]}")
        w.check(own["own"].value == mine, "wrong-value", lambda: f"after {what}: own counter says {own['own'].value} instead of {mine}")
        for (g, *path), names in tagged.items():
            node = getattr(state, g)["tree"]
            for p in path:
                node = node.get(p)
                if not isinstance(node, S.CounterGroup):
                    break
            w.check(isinstance(node, S.CounterGroup), "wrong-tag", lambda: f"after {what}: {g} has no group {path}")
            for name in names:
                r = tag_resets.get((g, *path, name), 0)
                w.check(isinstance(node.get(name), S.Counter) and node[name].reset_count == r, "wrong-restarts", lambda: f"after {what}: {g} {path} {name} was not reset {r} times")
            have = {c.name: c.value for c in node.counters()}
            w.check(have == names, "wrong-tag", lambda: f"after {what}: {g} {path} has {have} instead of {names}")
        for g in ("counters", "broadcast_counters", "device_counters", "group_counters"):
            names = [x.name for x in getattr(state, g)]
            exp = (["radio", "own"] if g == "counters" else []) + (["tree"] if any(k[0] == g for k in tagged) else [])
            w.check(sorted(names) == sorted(exp), "wrong-groups", lambda: f"after {what}: {g} has {names} instead of {exp}")

    def advance(dt):
        for i, c in enumerate(cs):
            n = int(c["rate"] * dt)
            raw[i] = (raw[i] + n + rng.pick(f"ev{i}", 3)) % (1 << c["bits"])

    def poll(i):
        new = raw[i]
        if new < last[i]:
            restarts[i] += 1
            want[i] += new
            w.stats["wrapped"] += 1
        else:
            w.stats["same"] += new == last[i]
            want[i] += new - last[i]
        last[i] = new
        group[f"c{i}"].update(new)
        w.stats["polls"] += 1

    for op in plan["ops"]:
        if op["dt"]:
            await asyncio.sleep(op["dt"])
            advance(op["dt"])
        i, k = op["c"], op["op"]
        before = [group[f"c{j}"].value for j in range(len(cs))]
        w.log(k, i)
        if k == "poll":
            for j in range(len(cs)):
                poll(j)
        elif k == "fail":
            # the poll fails half way
            w.stats["poll_failed"] += 1
            w.stats["fault_poll"] += 1
            for j in range(i):
                poll(j)
        elif k == "restart":
            raw[:] = [0] * len(cs)
            w.stats["restarted"] += 1
            w.stats["fault_restart"] += 1
        elif k == "restart_seen":
            raw[:] = [0] * len(cs)
            w.stats["fault_restart"] += 1
            group.reset()
            w.stats["group_reset"] += 1
            for j in range(len(cs)):
                last[j] = 0
                restarts[j] += 1
        elif k == "reset":
            raw[i] = 0
            group[f"c{i}"].reset()
            last[i] = 0
            restarts[i] += 1
            w.stats["reset"] += 1
        elif k == "group_reset":
            own.reset()
            w.stats["group_reset"] += 1
        elif k == "tree_reset":
            for g in {key[0] for key in tagged}:
                getattr(state, g)["tree"].reset()
                for key, names in tagged.items():
                    for name in names if key[0] == g else []:
                        tag_resets[(*key, name)] = tag_resets.get((*key, name), 0) + 1
            w.stats["group_reset"] += 1
        elif k == "set":
            # a library that knows the radio restarted and what it counted since
            raw[i] = last[i] = op["by"]
            want[i] += op["by"]
            restarts[i] += 1
            group[f"c{i}"].reset_and_update(op["by"])
            w.stats["reset"] += 1
        elif k == "inc":
            own["own"].increment(*([] if op["by"] == 1 else [op["by"]]))
            mine += op["by"]
            w.stats["incremented"] += 1
        elif k == "tags":
            getattr(state, op["group"])["tree"].increment(op["name"], *op["path"])
            for d in range(1, len(op["path"]) + 1):
                t = tagged.setdefault(key_path(op["group"], op["path"][:d]), {})
                t[op["name"]] = t.get(op["name"], 0) + 1
            w.stats["tagged"] += 1
        for j, b in enumerate(before):
            w.check(group[f"c{j}"].value >= b, "backwards", lambda: f"{k}: counter {j} went from {b} to {group[f'c{j}'].value}")
        verify(k)
    w.sample = {"counters": cs, "ops": plan["ops"][:5]}
    w.state(min(sum(restarts), 5), len(tagged), mine > 0)


PARTS = [Part("count", 1, gen, run)]
