#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property: generates cases, executes them on the implementation built
from /repo's working tree, and has TLC validate the results against the TLA+
specification; model-checks the specification itself where the plan says so."""
import argparse
import json
import os
import shutil
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vt          # noqa: E402
import plans       # noqa: E402
import families    # noqa: E402


def known():
    """The findings that are recorded but not repaired."""
    with open(os.path.join(vt.VERIF, "KNOWN_FINDINGS")) as f:
        return [json.loads(l[5:]) for l in f if l.startswith("open:")]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = os.path.join(vt.BUILD, "run", "%s-%d" % (a.property, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        vt.build()
        if a.property == "P21":
            vt.build_tools()
        if a.replay:
            return replay(a, scratch)
        return run(a, seed, scratch, t0)
    except vt.ToolError as e:
        print("check.py: %s" % e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(a, scratch):
    with open(a.replay) as f:
        r = json.load(f)
    fam = families.FAMILIES[r["family"]]
    c = {k: v for k, v in r["case"].items() if k != "o"}
    res = vt.check_cases(fam, [c], scratch)
    for b, cc in res["bad"]:
        print(json.dumps({"case": fam.describe(c), "mismatch": b}, ensure_ascii=False))
        print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
        return 1
    print("accepted")
    return 0


def run(a, seed, scratch, t0):
    plan = plans.PLANS[a.property]
    batches = []
    for fam, count, size in plan.batches(a.tier):
        for k in range(max(1, int(count * a.scale + .5))):
            batches.append((a.property, seed, a.tier, fam, k, size, scratch))
    tot = {"accepted": 0, "rejected": 0, "n": 0, "dropped": 0, "states": 0, "transitions": 0}
    keys, kinds, samples, bad, perfam = set(), {}, [], [], {}
    models, failed = [], []
    with vt.pool() as pool:
        mfuts = [(m, pool.submit(plans.run_model, m, a.tier, scratch)) for m in plan.models(a.property)]
        futs = [(b, pool.submit(vt.validate, b)) for b in batches]
        try:
            for b, f in futs:
                try:
                    r = f.result()
                except vt.ToolError as e:
                    # What other batches find is found all the same
                    failed.append(str(e))
                    continue
                for k in tot:
                    tot[k] += r[k]
                keys |= r["keys"]
                for k, v in r["kinds"].items():
                    kinds[k] = kinds.get(k, 0) + v
                if len([s for s in samples if s["family"] == b[3]]) < 2:
                    samples += [dict(s, family=b[3]) for s in r["samples"]]
                bad += [(b[3], m, c) for m, c in r["bad"]]
                perfam[b[3]] = perfam.get(b[3], 0) + r["n"]
                if bad and time.time() - t0 > 150:
                    # Enough is known
                    for _, g in futs:
                        g.cancel()
                    break
            for m, f in mfuts:
                r = f.result()
                bad += r.pop("bad")
                tot["n"] += r["replayed"]
                models.append(r)
        except Exception:
            for _, f in futs + mfuts:
                f.cancel()
            raise
    found = [k for k in known() if k["property"] == a.property]
    fresh = []
    for fam, m, c in bad:
        hit = [k for k in found if c is not None and plans.matches_finding(k, fam, c)]
        if not hit:
            fresh.append((fam, m, c))
    for k in found:
        print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
    broken = [m for m in models if m["violated"]]
    if failed and not fresh:
        raise vt.ToolError(failed[0])
    write_evidence(a, seed, plan, tot, keys, kinds, samples, perfam, models, len(fresh) + len(broken), t0)
    if broken:
        for m in broken:
            print("the specification violates its own property: %s: %s" % (m["model"], m["violated"]), file=sys.stderr)
        return 2
    if fresh:
        d = os.path.join(vt.BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        fresh.sort(key=lambda x: len(json.dumps({k: v for k, v in (x[2] or {}).items() if k != "o"})))
        for i, (fam, m, c) in enumerate(fresh[:5]):
            path = os.path.join(d, "%s-%d.json" % (a.property, i))
            with open(path, "w") as f:
                json.dump({"property": a.property, "family": fam, "mismatch": m, "case": c}, f, ensure_ascii=False)
            if i == 0:
                first = path
            print(json.dumps({"case": families.FAMILIES[fam].describe(c) if c else None, "mismatch": m}, ensure_ascii=False)[:1500])
        print("%d of %d cases rejected" % (len(fresh), tot["n"]))
        print("VIOLATION property=%s replay=%s" % (a.property, first))
        return 1
    print("%s: %d cases accepted, %d states, %.1f s" % (a.property, tot["accepted"], tot["states"] + sum(m["states"] for m in models), time.time() - t0))
    return 0


def write_evidence(a, seed, plan, tot, keys, kinds, samples, perfam, models, violations, t0):
    os.makedirs(os.path.join(vt.VERIF, "evidence"), exist_ok=True)
    ev = {"property": a.property, "tier": a.tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["states"] + sum(m["states"] for m in models),
                       "transitions": tot["transitions"] + sum(m["transitions"] for m in models),
                       "traces_validated_against_impl": tot["accepted"],
                       "evaluations": tot["n"], "distinct_nontrivial": len(keys),
                       "rule": plan.rule, "cases_per_family": perfam, "observed_step_kinds_in_samples": kinds,
                       "design_models": [{k: m[k] for k in ("model", "states", "transitions", "checked", "replayed")} for m in models],
                       "samples": samples[:8], "exhaustive": False},
          "assumptions": plan.assumptions, "wall_s": round(time.time() - t0, 1), "violations": violations}
    with open(os.path.join(vt.VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


if __name__ == "__main__":
    sys.exit(main())
