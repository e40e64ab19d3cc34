"""Entry point: check <id> [--tier quick|thorough] [--replay FILE]."""
import argparse
import importlib
import json
import os
import platform
import re
import sys
import time
import traceback

from . import api, engine, selftest

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
MODULES = ["codec", "shipped", "history", "conc", "faults", "printing", "retention"]


def all_props():
    props = {}
    for m in MODULES:
        mod = importlib.import_module("mc.props." + m)
        props.update(mod.PROPS)
    return props


def known_findings(pid):
    """open: property=<id> <case key> <what fails>"""
    out = {}
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"open: property=(\S+) (\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


SCRIPT = '''#!/usr/bin/env python3
"""Replays one violation of {pid} without the explorer.

{msg}
"""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, {repo!r})
import iso8583

spec = {spec}
x = {x}
print("input:", x)
try:
    print("iso8583.{op}:", *iso8583.{op}(x, spec))
except Exception as e:
    print("iso8583.{op} raised", type(e).__name__, e)
print("expected / detail:")
print({detail!r})
'''


def write_replay(pid, tier, v, n=0):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, n))
    doc = {"property": pid, "tier": tier, "harness": v.get("harness"), "choices": v.get("choices"), "message": v["msg"],
           "detail": engine.safe_repr(v.get("case"))[:6000], "input": engine.safe_repr(v.get("input"))[:20000],
           "replay": "./check %s --tier %s --replay %s" % (pid, tier, path)}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    inp = v.get("input")
    if isinstance(inp, tuple) and len(inp) == 3 and inp[0] in ("encode", "decode"):
        with open(path[:-5] + ".py", "w") as f:
            f.write(SCRIPT.format(pid=pid, msg=v["msg"].replace('"""', "'''"), repo=api.REPO, op=inp[0], spec=engine.safe_repr(inp[1]), x=engine.safe_repr(inp[2]), detail=engine.safe_repr(v.get("case"))[:4000]))
    elif v.get("script"):
        with open(path[:-5] + ".py", "w") as f:
            f.write(v["script"])
    return os.path.relpath(path, ROOT)


def report(pid, tier, v, n=0):
    path = write_replay(pid, tier, v, n)
    print("  harness: %s" % v.get("harness"))
    print("  %s" % v["msg"])
    if v.get("input") is not None:
        print("  input: %s" % engine.safe_repr(v["input"])[:1500])
    if v.get("case"):
        print("  detail: %s" % engine.safe_repr(v["case"])[:1500])
    print("VIOLATION property=%s replay=%s" % (pid, path))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--self-test", action="store_true", help="load every harness and check the explorers on toy systems")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only harnesses whose name contains this")
    a = ap.parse_args(argv)
    sys.stdout.reconfigure(line_buffering=True)
    if a.self_test:
        return selftest.run(all_props())
    if not a.pid:
        ap.error("a property id is needed")
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop = all_props()[a.pid]
    harnesses, meta = prop(tier)
    if a.only:
        harnesses = [h for h in harnesses if a.only in h.name]
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        h = [h for h in harnesses if h.name == rec["harness"]][0]
        engine.watch()
        v = engine.replay(h, rec["choices"])
        if v is None:
            print("the recorded execution does not violate %s" % a.pid)
            return 0
        v["harness"], v["choices"] = h.name, rec["choices"]
        report(a.pid, tier, v)
        return 1
    t0 = time.time()
    known = known_findings(a.pid)
    results, viols = engine.explore(harnesses)
    wall = time.time() - t0

    fresh = []
    for v in viols:
        key = v.get("key")
        if key in known:
            continue
        fresh.append(v)
    for key, what in known.items():
        print("KNOWN-FINDING: property=%s %s" % (a.pid, what))

    tot = engine.Stats()
    per = []
    for h in harnesses:
        st = results[h.name]
        tot.add(st)
        per.append({"harness": h.name, "bound": h.bound, "states": st.points, "transitions": st.branches, "executions": st.executions,
                    "pruned": st.skipped, "cpu_s": round(st.cpu, 1), "distinct_outcomes": len(st.outcomes), "outcomes": dict(st.outcomes.most_common(12)),
                    "first_choices": st.first, "last_choices": st.last, **({"extra": dict(st.extra)} if st.extra else {})})
    samples = []
    for h in harnesses:
        st = results[h.name]
        for c in (st.first, st.last):
            if c is not None and len(samples) < 16 and h.kind == "tree" and h.describe:
                samples.append({"harness": h.name, "choices": c, "input": engine.describe_input(h, c)})
        if h.kind == "bfs" and st.sample is not None:
            samples.append({"harness": h.name, "history": st.sample})
    cov = {"states": tot.points, "transitions": tot.branches, "traces_validated_against_impl": tot.executions,
           "samples": samples[:16], "exhaustive": not viols,
           "distinct_outcomes": len(tot.outcomes), "outcomes": dict(tot.outcomes.most_common(40)),
           "meaning": "states: decision points of the choice trees (BFS harnesses: distinct states); transitions: branches taken; "
                      "traces_validated_against_impl: complete executions run on the real code and judged against the reference or law",
           "harnesses": per}
    ev = {"property": a.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
          "assumptions": meta.get("assumptions", []) + ["CPython %s and its codecs behave as documented" % platform.python_version()],
          "wall_s": round(wall, 2), "violations": len(fresh)}
    os.makedirs(EVID, exist_ok=True)
    if not a.only:
        with open(os.path.join(EVID, a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=engine.safe_repr)
    print("%s (%s): %d executions, %d states, %d transitions, %d distinct outcomes, %d harnesses, %.1f s"
          % (a.pid, tier, tot.executions, tot.points, tot.branches, len(tot.outcomes), len(harnesses), wall))
    if os.environ.get("MC_VERBOSE"):
        for d in per:
            print("   %-34s %9d exec %8.1f cpu s  %d outcomes" % (d["harness"], d["executions"], d["cpu_s"], d["distinct_outcomes"]))
    for i, v in enumerate(fresh[:5]):
        report(a.pid, tier, v, i)
    return 1 if fresh else 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
