"""python -m vf.run C01 [--tier quick|thorough] [--replay FILE]

Runs every sub-check of a property in parallel worker processes, writes evidence/<id>.json and
prints VIOLATION / KNOWN-FINDING lines.  Exit 0: held; 1: violated; 2: the check itself broke.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

from . import boot, core, deps

ROOT = boot.ROOT


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def spawn(spec, workdir):
    err = open(spec["out"] + ".err", "w")
    env = boot.child_env(spec["prec"])
    return subprocess.Popen(
        [sys.executable, "-m", "vf.worker", json.dumps(spec)],
        cwd=ROOT, env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL)


def run_pool(specs, workdir, jobs, timeout):
    todo = list(specs)
    live = []
    results = []
    t_end = time.monotonic() + timeout
    while todo or live:
        while todo and len(live) < jobs:
            s = todo.pop(0)
            live.append((s, spawn(s, workdir), time.monotonic()))
        time.sleep(0.05)
        for item in list(live):
            s, p, t = item
            if p.poll() is not None:
                live.remove(item)
                results.append(collect(s, p.returncode))
            elif time.monotonic() > t_end:
                p.kill()
                p.wait()
                live.remove(item)
                r = collect(s, None)
                results.append(r)
        if time.monotonic() > t_end and todo:
            for s in todo:
                results.append(dict(spec=s, skipped_shard=True, evaluations=0, distinct_nontrivial=0,
                                    rejected=0, skipped=0, labels={}, samples=[], worst={},
                                    failure=None, error=None, hashes=[], wall_s=0.0))
            todo = []
    return results


def collect(s, rc):
    try:
        with open(s["out"]) as f:
            return json.load(f)
    except Exception:
        tail = ""
        try:
            with open(s["out"] + ".err") as f:
                tail = f.read()[-3000:]
        except OSError:
            pass
        r = dict(spec=s, evaluations=0, distinct_nontrivial=0, rejected=0, skipped=0, labels={},
                 samples=[], worst={}, failure=None, error=None, hashes=[], wall_s=0.0)
        if rc is None:
            r["timeout"] = True  # inconclusive, not a violation
        else:
            r["error"] = f"worker ended with code {rc}\n{tail}"
        return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--sub", help="only this sub-check (development)")
    ap.add_argument("--prec")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    pid = a.property
    t0 = time.monotonic()
    deps.ensure()

    # the registry is read in a child-free way: modules only import numpy/hypothesis lazily
    import importlib

    importlib.import_module("vf.checks." + pid.lower())
    subs = core.REGISTRY[pid]

    os.makedirs(os.path.join(ROOT, ".work"), exist_ok=True)
    workdir = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(ROOT, ".work"))
    jobs = min(8, os.cpu_count() or 1)
    budget = 420.0 if tier == "quick" else 3000.0
    known = [k for k in load_known() if k.get("property") == pid]
    specs = []
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        specs.append(dict(property=pid, sub=r["sub"], prec=r["prec"], case=r["case"], seed=0, shard=0,
                          out=os.path.join(workdir, "replay.json")))
    else:
        for s in subs:
            if a.sub and s.name != a.sub:
                continue
            for prec in s.prec:
                if a.prec and prec != a.prec:
                    continue
                n = s.quick if tier == "quick" else s.thorough
                if prec == "f32":
                    n = max(1, int(n * s.f32_scale))
                n = max(1, int(n * a.scale))
                shards = s.shards if tier == "quick" else s.tshards
                if prec == "f32":
                    shards = max(1, int(shards * s.f32_scale))
                for k in range(shards):
                    specs.append(dict(
                        property=pid, sub=s.name, prec=prec, shard=k, seed=a.seed,
                        examples=max(1, n // shards), budget_s=budget, shrink_s=45.0 if tier == "quick" else 180.0,
                        known=known, out=os.path.join(workdir, f"{s.name}-{prec}-{k}.json")))
    results = run_pool(specs, workdir, jobs, timeout=780.0 if tier == "quick" else 7200.0)

    failures = [r for r in results if r["failure"]]
    errors = [r for r in results if r["error"]]
    # evidence
    per = {}
    for r in results:
        k = (r["spec"]["sub"], r["spec"]["prec"])
        d = per.setdefault(k, dict(evaluations=0, hashes=set(), rejected=0, skipped=0, labels={},
                                   worst={}, samples=[], inconclusive=0, wall_s=0.0))
        d["evaluations"] += r["evaluations"]
        d["hashes"].update(r["hashes"])
        d["rejected"] += r["rejected"]
        d["skipped"] += r["skipped"]
        d["wall_s"] += r.get("wall_s", 0.0)
        d["inconclusive"] += int(bool(r.get("timeout") or r.get("skipped_shard")))
        for n, v in r["labels"].items():
            d["labels"][n] = d["labels"].get(n, 0) + v
        for n, v in r["worst"].items():
            d["worst"][n] = max(d["worst"].get(n, 0.0), v)
        d["samples"] += r["samples"][:2]
    samples = []
    for (sub, prec), d in sorted(per.items()):
        for c in d["samples"][:1]:
            samples.append(dict(sub=sub, prec=prec, case=c))
    if not samples:
        samples = [dict(note="no non-trivial case completed")]
    rules = {s.name: s.rule for s in subs if s.rule}
    ev = dict(
        property=pid, tier=tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=sum(d["evaluations"] for d in per.values()),
            distinct_nontrivial=sum(len(d["hashes"]) for d in per.values()),
            rule="Hypothesis generates each case from the seed; non-trivial (decided per case, counted "
                 "once per distinct case): " + "; ".join(f"{k}: {v}" for k, v in rules.items()),
            samples=samples[:12],
            subchecks={f"{k[0]}/{k[1]}": dict(
                evaluations=d["evaluations"], distinct_nontrivial=len(d["hashes"]),
                rejected=d["rejected"], not_run_time_budget=d["skipped"],
                inconclusive_shards=d["inconclusive"], labels=d["labels"],
                worst_error_over_tolerance={n: round(v, 4) for n, v in sorted(d["worst"].items(), key=lambda x: -x[1])[:8]},
                cpu_s=round(d["wall_s"], 1)) for k, d in sorted(per.items())},
        ),
        assumptions=getattr(sys.modules["vf.checks." + pid.lower()], "ASSUMPTIONS", []),
        wall_s=round(time.monotonic() - t0, 2),
        violations=len(failures),
    )
    if not a.replay and not a.sub and not a.prec:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=float)
        os.replace(tmp, os.path.join(ROOT, "evidence", pid + ".json"))
    if a.v:
        for k, d in ev["coverage"]["subchecks"].items():
            print(k, json.dumps(d))
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rc = 0
    for r in failures:
        s = r["spec"]
        path = a.replay
        if not a.replay:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", f"{pid}-{s['sub']}-{s['prec']}-{s['shard']}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, sub=s["sub"], prec=s["prec"], seed=a.seed,
                               **r["failure"]), f, indent=1, default=float)
        print(f"  {s['sub']}/{s['prec']}: {r['failure']['message'][:600]}")
        if not r["failure"].get("confirmed", True):
            print("  (the minimal case did not fail again outside the search)")
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    for r in errors:
        s = r["spec"]
        print(f"HARNESS ERROR in {pid} {s['sub']}/{s['prec']}:\n{r['error']}", file=sys.stderr)
        rc = rc or 2
    import shutil

    shutil.rmtree(workdir, ignore_errors=True)
    print(f"{pid} {tier}: {ev['coverage']['evaluations']} cases, "
          f"{ev['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{len(failures)} violation(s), {len(errors)} error(s), {ev['wall_s']:.1f} s")
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
