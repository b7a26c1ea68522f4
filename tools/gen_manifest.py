#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the scenarios present."""
import ast
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent

NA = {
    "P24": "pure functions of their input bytes: no task, timer, I/O, peer or failure can influence them, so there is nothing to simulate",
    "P25": "a pure function of the registry content and one device signature, with no concurrency, time or I/O to simulate; what follows from the choice over a device's life is simulated under P28",
    "P26": "pure parsing of a byte string; what is fetched, cached and offered on top of it is simulated under P13",
    "P27": "a pure function of a short byte string with no concurrency, time, I/O or peers",
}
NOTE = {}
PY = "/opt/venv/bin/python"


def main():
    props = [json.loads(line) for line in (ROOT / "properties.jsonl").read_text().splitlines()]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        f = ROOT / "scen" / f"{pid.lower()}.py"
        if pid in NA:
            na.append({"property": pid, "reason": NA[pid]})
        elif not f.exists():
            na.append({"property": pid, "reason": "scenario not built yet"})
        else:
            rule = ""
            for node in ast.parse(f.read_text()).body:
                if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "RULE":
                    rule = ast.literal_eval(node.value)
            checks.append({
                "property": pid,
                "quick_cmd": f"{PY} check.py {pid} --tier quick",
                "thorough_cmd": f"{PY} check.py {pid} --tier thorough",
                "technique": "deterministic simulation with fault injection: seeded search over schedules and fault "
                             "sequences of the real code, judged by invariants and a reference model",
                "level": "exploration",
                "level_note": rule,
                "evidence_file": f"evidence/{pid}.json",
            })
    man = {
        "version": 1,
        "setup_cmd": f"{PY} check.py selftest",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every seam (loop, clock, random, executor, sqlite thread, HTTP, radio) is outside it.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


main()
