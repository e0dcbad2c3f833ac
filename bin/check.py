#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by symbolic execution of /repo's current code."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
sys.path.insert(0, V + "/harness")
import build as B  # noqa: E402
from registry import PROPS  # noqa: E402


def run_native(prog, vars_, limit=20):
    d = tempfile.mkdtemp(prefix="verif-nat-")
    try:
        os.chmod(d, 0o700)
        with open(d + "/.in", "w") as f:
            for n, v in vars_:
                f.write("%s %d\n" % (n, v))
        try:
            p = subprocess.run([prog, d + "/.in", str(limit)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=limit + 20)
            out = p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            out = "FAIL does not terminate\n"
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def obs_of(out):
    r = []
    for l in out.splitlines():
        if l.startswith("OBS "):
            a = l.split(" ")
            r.append((" ".join(a[1:-1]), int(a[-1])))
    return r


def fails_of(out):
    r = []
    for l in out.splitlines():
        i = l.find("FAIL ")
        if i >= 0:
            r.append(l[i + 5:].strip())
    return r


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    keep = os.environ.get("VERIF_KEEP")
    work = keep or tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.makedirs(work, exist_ok=True)
    rc = 0
    try:
        rc = check(prop, cfg, tier, seed, work, t0)
    except B.BuildError as e:
        print("ERROR: the check could not be built:\n%s" % e)
        rc = 2
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def load_known(prop):
    p = V + "/known_findings.json"
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "known"]


def check(prop, cfg, tier, seed, work, t0):
    defs = list(cfg.get("defs", []))
    if tier == "thorough":
        defs.append("THOROUGH=1")
    harness = V + "/harness/" + cfg["harness"]
    threads = cfg.get("replay") == "engine"
    prog, natf, ext = B.build(work, harness, defs, want_native=not threads, race=threads)
    t_build = time.time() - t0
    out = work + "/out"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    budget = cfg.get("budget_" + tier, 150 if tier == "quick" else 600)
    known = load_known(prop)
    with open(work + "/known.txt", "w") as f:
        for k in known:
            f.write(k["message"] + "\n")
    env = dict(os.environ)
    env["LC_ALL"] = "C"
    p = subprocess.run([prog, "--out", out, "--jobs", str(cfg.get("jobs", 8)), "--budget", str(budget), "--seed", str(seed),
                        "--samples", str(cfg.get("samples", 24)), "--hang", str(cfg.get("hang", 20)),
                        "--xcheck", str(cfg.get("xcheck", 1 if tier == "thorough" else 0)),
                        "--known", work + "/known.txt"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    err = p.stderr.decode(errors="replace")
    if p.returncode or not os.path.exists(out + "/summary.json"):
        print("ERROR: the symbolic run failed\n" + err[-3000:])
        return 2
    s = json.load(open(out + "/summary.json"))
    t_explore = s["wall"]

    def replay(vars_):
        if threads:
            f = tempfile.NamedTemporaryFile("w", delete=False, dir=work)
            for n, v in vars_:
                f.write("%s %d\n" % (n, v))
            f.close()
            d = tempfile.mkdtemp(dir=work)
            q = subprocess.run([prog, "--out", d, "--replay", f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            return q.stdout.decode(errors="replace")
        return run_native(natf.result(), vars_, cfg.get("hang", 20))

    # every reported counterexample is replayed on the ordinary build; only what fails there too is a violation
    violations, knownhits, unconfirmed = [], [], []
    for f in sorted(glob.glob(out + "/viol_*.json")):
        v = json.load(open(f))
        o = replay(v["vars"])
        fails = fails_of(o)
        kf = [k for k in known if v["message"].startswith(k["message"])]
        if v["message"] in fails or (v["kind"] in ("crash", "hang", "exit") and fails):
            if kf:
                knownhits.append((kf[0], v))
            else:
                violations.append(v)
        else:
            unconfirmed.append((v, o[-300:]))
    # sampled paths: the native program must take the same values to the same observations
    validated, mism, samples = 0, [], []
    sv = [json.load(open(f)) for f in sorted(glob.glob(out + "/sample_*.json"))]
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for v, o in zip(sv, ex.map(lambda x: replay(x["vars"]), sv)):
            kfails = [m for m in fails_of(o) if not any(m.startswith(k["message"]) for k in known)]
            if "DONE" in o and obs_of(o) == [tuple(x) for x in v["obs"]] and not kfails:
                validated += 1
            else:
                mism.append({"vars": v["vars"], "symbolic": v["obs"][:20], "native": o[-400:]})
            if len(samples) < 6:
                samples.append({"inputs": v["vars"][:60], "observations": v["obs"][:20]})
    exhaustive = not s["truncated"] and not s["unknown"] and not s["abnormal"]
    fns = sorted(set(x for x in s["functions"] if not x.startswith("sy_")))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": s["paths"] + s["infeasible"], "transitions": s["branches"],
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no path completed"}],
            "exhaustive": exhaustive,
            "bounds": cfg["bounds"] + ("; thorough: " + cfg["bounds_thorough"] if tier == "thorough" and "bounds_thorough" in cfg else ""),
            "outside_bounds": cfg.get("outside", "larger inputs than the bounds"),
            "functions_encoded": fns, "functions_encoded_count": len(fns),
            "paths_completed": s["paths"], "paths_cut_by_assumption": s["infeasible"],
            "queries": s["queries"], "queries_sat": s["sat"], "queries_unsat": s["unsat"], "queries_unknown": s["unknown"],
            "finite_domain_decisions": s["domq"], "path_conditions_decided_by_z3": s["pathq"], "solver_time_s": round(s["solver_us"] / 1e6, 3),
            "assertions_evaluated": s["asserts"], "assertions_symbolic": s["asserts_sym"],
            "forks": s["forks"], "truncated_branches": s["truncated"], "abnormal_paths": s["abnormal"],
            "scenarios_reached": s["tags"], "explore_wall_s": s["wall"], "build_wall_s": round(t_build, 1),
            "native_mismatches": len(mism), "unconfirmed_counterexamples": len(unconfirmed),
            "solver": "z3 4.8 (QF_BV)", "stubs": cfg.get("stubs", STUBS),
        },
        "assumptions": cfg.get("assumptions", []) + ["third-party stand-ins: " + ", ".join(cfg.get("stubs", STUBS))],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (V, prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d paths, %d branches, %d solver queries (%.1f s), %d assertions; build %.1f s, exploration %.1f s; "
          "exhaustive=%s; %d sampled paths agree with the native build"
          % (prop, tier, s["paths"], s["branches"], s["queries"], s["solver_us"] / 1e6, s["asserts"], t_build, t_explore,
             exhaustive, validated))
    if not exhaustive:
        print("NOTE: not exhaustive (truncated=%d unknown=%d abnormal=%d)" % (s["truncated"], s["unknown"], s["abnormal"]))
    need = [t for t in cfg.get("reach", []) if t not in s["tags"]]
    if need and not violations:
        print("NOTE: scenarios not reached: " + ", ".join(need))
    if err.strip():
        print("engine: " + err.strip()[-600:])
    for m in mism[:3]:
        print("NOTE: native replay differs from the symbolic path: " + json.dumps(m)[:1500])
    for v, o in unconfirmed[:3]:
        print("NOTE: counterexample not confirmed by the native build: %s / %s" % (json.dumps(v)[:800], o))
    seen = set()
    for k, v in knownhits:
        if k["message"] not in seen:
            seen.add(k["message"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if s["unknown"] >= 1000000:
        print("ERROR: internal disagreement of the engine")
        return 2
    if violations:
        rdir = "%s/evidence/replay" % V
        os.makedirs(rdir, exist_ok=True)
        msgs = set()
        for v in violations:
            if v["message"] in msgs:
                continue
            msgs.add(v["message"])
            h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            path = "%s/%s-%s.json" % (rdir, prop, h)
            with open(path, "w") as f:
                json.dump({"property": prop, "harness": cfg["harness"], "defs": defs, "tier": tier, **v}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + v["message"])
        return 1
    return 0


STUBS = ["boost::flyweight compared by value", "spdlog/fmt log text dropped", "moodycamel queue as an atomic FIFO",
         "hash functions constant", "memcmp/strlen/strtol/tolower models"]

if __name__ == "__main__":
    main()
