"""Run the check of one property: python -m gwv.run C01 [--only scenario:index] [--shard k/n]"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import shutil
import time

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--only")
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int, default=None)
    args = ap.parse_args()
    pid = args.pid
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    if tier not in ("quick", "thorough"):
        sys.exit(f"unknown tier {tier}")
    module = importlib.import_module(f"gwv.checks.{pid.lower()}")
    cls = module.CheckImpl
    jobs = args.jobs or (6 if tier == "thorough" and not getattr(cls, "serial", False) else 1)
    if jobs > 1 and not args.only and not args.shard:
        result = run_sharded(pid, tier, seed, jobs)
    else:
        result = run_here(cls, tier, seed, args)
    if args.out:
        core.write_json(args.out, result)
        return 0
    return report(cls, pid, tier, seed, result, time.monotonic() - t0, partial=bool(args.only))


def run_here(cls, tier, seed, args):
    limit = 780 if tier == "quick" else 3 * 3600
    deadline = time.monotonic() + limit
    gw = core.load_repo()
    check = cls(gw, seed, tier)
    plan = check.plan()
    if args.only:
        name, _, idx = args.only.partition(":")
        plan = [(n, m, i) for n, m, i in plan if n == name and (idx == "" or i == int(idx))]
        if not plan and idx:
            plan = [(name, check.scenarios[name][0], int(idx))]
    if args.shard:
        k, n = map(int, args.shard.split("/"))
        plan = [c for j, c in enumerate(plan) if j % n == k]
    check.setup()
    try:
        violations, known, done, stopped = core.run_plan(check, plan, deadline)
    finally:
        check.teardown()
    m = check.mon
    return dict(
        violations=violations, known=known, cases=done, planned=len(plan), stopped=stopped,
        events=m.events, elements=m.elements, counts=m.counts, distinct=sorted(m.distinct),
        samples=m.samples, notes=m.notes, required=check.required(),
    )


def run_sharded(pid, tier, seed, jobs):
    tmp = tempfile.mkdtemp(prefix=f"gwv-{pid}-")
    try:
        procs = []
        for k in range(jobs):
            out = os.path.join(tmp, f"{k}.json")
            procs.append(
                (out, subprocess.Popen(
                    [sys.executable, "-W", "ignore", "-m", "gwv.run", pid, "--shard", f"{k}/{jobs}", "--out", out],
                    stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                ))
            )
        parts = []
        for out, proc in procs:
            _, err = proc.communicate()
            if proc.returncode != 0 or not os.path.exists(out):
                sys.stderr.write(err.decode(errors="replace")[-3000:])
                raise SystemExit(2)
            parts.append(json.load(open(out)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    total = parts[0]
    for p in parts[1:]:
        total["violations"] += p["violations"]
        total["known"].update(p["known"])
        for key in ["cases", "planned", "events", "elements"]:
            total[key] += p[key]
        total["stopped"] = total["stopped"] or p["stopped"]
        for key in ["counts", "notes"]:
            for k, v in p[key].items():
                total[key][k] = total[key].get(k, 0) + v
        total["distinct"] = sorted(set(total["distinct"]) | set(p["distinct"]))
        have = {s["monitor"] for s in total["samples"]}
        total["samples"] += [s for s in p["samples"] if s["monitor"] not in have][:2]
    return total


def report(cls, pid, tier, seed, r, wall, partial):
    for key, what in r["known"].items():
        print(f"KNOWN-FINDING: property={pid} {key}: {what}")
    missing = [] if partial else [label for label in r["required"] if not r["counts"].get(label)]
    evidence = dict(
        property=pid, tier=tier, seed=seed, level=cls.level,
        coverage=dict(
            evaluations=r["events"],
            distinct_nontrivial=len(r["distinct"]),
            rule=cls.rule,
            samples=r["samples"] or [dict(note="no non-trivial observation")],
            cases_run=r["cases"], cases_planned=r["planned"],
            values_compared_with_oracle=r["elements"],
            decisions_per_monitor=r["counts"],
            workload_notes=r["notes"],
            monitors_never_reached=missing,
            stopped_on_time=r["stopped"],
        ),
        assumptions=cls.assumptions,
        wall_s=round(wall, 2),
        violations=len(r["violations"]),
    )
    if not partial:
        core.write_json(os.path.join(core.VERIF, "evidence", f"{pid}.json"), evidence)
    if r["violations"]:
        for j, v in enumerate(r["violations"][:5]):
            path = os.path.join(core.VERIF, "replays", f"{pid}-{seed}-{v['scenario']}-{v['index']}.json")
            core.write_json(path, v)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {v['scenario']}:{v['index']} {v['monitor']}: {v['message'][:600]}")
        return 1
    if missing or r["cases"] == 0 or (r["stopped"] and r["cases"] < 0.25 * r["planned"]):
        print(f"INCONCLUSIVE property={pid}: monitors never reached: {missing}, cases {r['cases']}/{r['planned']}")
        return 2
    print(
        f"HELD property={pid} tier={tier} seed={seed} cases={r['cases']}/{r['planned']} events={r['events']} "
        f"values={r['elements']} distinct={len(r['distinct'])} wall={wall:.1f}s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
