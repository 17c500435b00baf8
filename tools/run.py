#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property on /repo's working tree.

Builds the harness binaries the property needs, runs their targets, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything explored.  Exit 1: violated.  Exit 2: no answer."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import checks

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = checks.CHECKS[pid]
    t0 = time.time()
    budget = float(os.environ.get("VERIF_SECONDS", 0)) or (spec.get("quick_s", 24) if tier == "quick" else spec.get("thorough_s", 420))
    jobs = spec["jobs"]
    by_variant = {}
    for j in jobs:
        if tier == "quick" and j.get("thorough_only"): continue
        by_variant.setdefault(j.get("variant", "asan"), [])
        for b in [j["bin"]] + j.get("needs", []):
            if b not in by_variant[j.get("variant", "asan")]: by_variant[j.get("variant", "asan")].append(b)
    unbuilt = []
    for var, bins in by_variant.items():
        r = subprocess.run([sys.executable, V + "/tools/build.py", var] + bins)
        if r.returncode:
            # a unit-level harness uses the library's classes by name and cannot outlive their renaming; the
            # whole-program targets can, and decide the property without it
            bad = [b for b in bins if subprocess.run([sys.executable, V + "/tools/build.py", var, b], stderr=subprocess.DEVNULL).returncode]
            left = [j for j in jobs if j["bin"] not in bad and j["bin"].startswith("world_")]
            if not left or any(not b.startswith("unit_") for b in bad):
                print(f"{pid}: the tree or its harness does not build", flush=True)
                return 2
            unbuilt += bad
    build_s = time.time() - t0
    build_dir = os.environ.get("VERIF_BUILD", V + "/build")
    rdir = f"{V}/replays/{pid}"
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    run_jobs = [j for j in jobs if j["bin"] not in unbuilt and not (tier == "quick" and j.get("thorough_only"))]
    wsum = sum(j.get("weight", 1) for j in run_jobs)
    results, violations, known = [], [], []
    scratch = tempfile.mkdtemp(prefix="vrun.")
    err = None
    for i, j in enumerate(run_jobs):
        var = j.get("variant", "asan")
        binp = f"{build_dir}/{var}/{j['bin']}"
        secs = max(2.0, budget * j.get("weight", 1) / wsum)
        out = f"{scratch}/{i}.json"
        cmd = [binp, "--target", j["target"], "--cases", str(j.get("cases", 100000000)), "--seconds", f"{secs:.1f}",
               "--seed", str(seed), "--jobs", str(j.get("procs", 8)), "--out", out, "--replaydir", rdir,
               "--shrink", "20" if tier == "quick" else "60", "--caselimit", str(j.get("caselimit", 40))]
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=1:handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=4000"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1"
        env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
        env["VERIF_BIN"] = f"{build_dir}/{var}"
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=V,
                           timeout=secs + 400)
        try:
            d = json.load(open(out))
        except Exception as e:
            err = f"{j['bin']} {j['target']}: no result ({e}), exit {r.returncode}: {r.stdout[-2000:]}"
            print(err, flush=True)
            continue
        d["binary"] = j["bin"]
        results.append(d)
        if d.get("violation"):
            violations.append(d)
            sys.stdout.write(r.stdout[-6000:])
            print(f"replay with: python3 {V}/tools/build.py {var} {j['bin']} && {binp} --replay {d['violation']}{' --repeat 20' if var == 'tsan' else ''}")
            print(f"VIOLATION property={pid} replay={d['violation']}", flush=True)
            break
        elif r.returncode != 0:
            err = f"{j['bin']} {j['target']}: exit {r.returncode}: {r.stdout[-2000:]}"
            print(err, flush=True)
    shutil.rmtree(scratch, ignore_errors=True)
    ev = sum(d["evaluations"] for d in results)
    dn = sum(d["distinct_nontrivial"] for d in results)
    samples = []
    for d in results:
        for s in d.get("samples", [])[:2]:
            samples.append({"target": d["target"], "case": s})
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dn,
            "rule": " | ".join(f"{d['target']}: {d['rule']}" for d in results) or "nothing ran",
            "samples": samples or ["none"],
            "targets": [{k: d.get(k) for k in ("target", "binary", "evaluations", "nontrivial", "distinct_nontrivial", "discarded", "labels", "wall_s", "unreproduced", "violation", "message")} for d in results],
        },
        "assumptions": checks.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    evidence["coverage"]["build_s"] = round(build_s, 2)
    if unbuilt: evidence["coverage"]["not_built"] = unbuilt
    json.dump(evidence, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    if violations: return 1
    if err: return 2
    if dn == 0:
        print(f"{pid}: no non-trivial case was generated")
        return 2
    print(f"{pid}: held on {ev} cases ({dn} distinct non-trivial), {evidence['wall_s']} s")
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except subprocess.TimeoutExpired as e:
        print("timeout:", e); sys.exit(2)
