#!/usr/bin/env python3
"""run.py ID [ID...]: runs one property's check (VERIF_TIER, VERIF_SEED from the environment).

A check is a list of parts (checks.py): C++ harnesses built on mc.h and Python
harnesses built on mcpy.py.  Both write the same JSON; this driver merges them,
applies known_findings.json, writes evidence/<id>.json and the replay files."""
import json
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import wodbuild as wb  # noqa: E402
from checks import CHECKS  # noqa: E402

V = wb.VERIF


def load_known():
    p = V + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def run_part(part, tier, seed):
    kind, name = part[0], part[1]
    opts = part[2] if len(part) > 2 else {}
    os.makedirs(wb.BUILD + "/out", exist_ok=True)
    out = "%s/out/%s.json" % (wb.BUILD, name)
    if os.path.exists(out):
        os.unlink(out)
    t0 = time.time()
    if kind == "cc":
        exe = wb.build_cc(name, **opts)
        cmd = [exe, "--out=" + out] + (["--thorough"] if tier == "thorough" else [])
        env = dict(os.environ, GLOG_logtostderr="1", TF_CPP_MIN_LOG_LEVEL="3", OMP_NUM_THREADS="1")
    else:
        cmd = [wb.PY, V + "/py/" + name + ".py", "--out=" + out] + (["--thorough"] if tier == "thorough" else [])
        env = wb.py_env(opts)
    t1 = time.time()
    r = subprocess.run(cmd, env=env)
    if r.returncode or not os.path.exists(out):
        raise RuntimeError("harness %s ended with %d" % (name, r.returncode))
    res = json.load(open(out))
    res["part"], res["kind"] = name, kind
    res["build_s"], res["run_s"] = round(t1 - t0, 2), round(time.time() - t1, 2)
    return res


def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[pid]
    known = [k for k in load_known()["findings"] if k["property"] == pid]
    ev_path = "%s/evidence/%s.json" % (V, pid)
    os.makedirs(V + "/evidence", exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    results = [run_part(p, tier, seed) for p in spec["parts"]]
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=0,
               distinct_nontrivial=0, samples=[], families=[], distinct_outcomes={}, parts=[])
    viols, seen_known = [], {}
    for r in results:
        cov["states"] += r["states"]
        cov["transitions"] += r["transitions"]
        cov["traces_validated_against_impl"] += r["traces"]
        cov["evaluations"] += r["leaves"]
        cov["samples"] += r["samples"][:6]
        cov["families"] += [dict(f, part=r["part"]) for f in r["families"]]
        for k, n in r["outcomes"].items():
            cov["distinct_outcomes"][k] = cov["distinct_outcomes"].get(k, 0) + n
        cov["parts"].append({k: r[k] for k in ("part", "kind", "build_s", "run_s", "leaves", "states", "transitions")})
        for v in r["violations"]:
            hit = [k for k in known if k["key"] == v["key"]]
            if hit:
                seen_known[hit[0]["key"]] = hit[0]["what"]
            else:
                viols.append((r, v))
    cov["distinct_nontrivial"] = cov["states"]
    cov["rule"] = spec.get("rule", "every choice sequence of each family within its stated bound; a case is counted "
                           "as distinct by the hash of its canonical input/state together with the model's result")
    cov["exhaustive"] = True
    if not cov["samples"]:
        cov["samples"] = ["(none)"]
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    for k, what in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s %s: executions=%d states=%d transitions=%d outcomes=%d families=%d wall=%.1fs" % (
        pid, tier, cov["evaluations"], cov["states"], cov["transitions"], len(cov["distinct_outcomes"]),
        len(cov["families"]), time.time() - t0))
    if not viols:
        return 0
    os.makedirs(V + "/replay", exist_ok=True)
    done = set()
    for i, (r, v) in enumerate(viols):
        if v["key"] in done:
            continue
        done.add(v["key"])
        path = "%s/replay/%s-%d.txt" % (V, pid, len(done))
        with open(path, "w") as f:
            f.write("property=%s\npart=%s %s\nkey=%s\nfamily=%s\nthorough=%d\nchoices=%s\n\n%s\n\n"
                    "replay: python3 /verif/lib/replay.py %s\n" % (
                        pid, r["kind"], r["part"], v["key"], v["family"], tier == "thorough",
                        " ".join(map(str, v["choices"])), v["msg"], path))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: %s" % (v["key"], v["msg"][:600]))
    return 1


if __name__ == "__main__":
    rc = 0
    for p in sys.argv[1:]:
        try:
            rc = max(rc, main(p))
        except Exception as e:  # noqa: BLE001
            print("ERROR property=%s %s" % (p, e))
            rc = 2
    sys.exit(rc)
