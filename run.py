#!/usr/bin/env python3
"""Decides one property from the current source of the repository (never executed, only parsed).

usage: run.py <property id> [--tier quick|thorough] [--repo DIR]
exit 0: every obligation of the property is discharged, undecided or a listed finding; exit 1: a violation; exit 2: no answer
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sv.load import AnalysisBroken, Repo  # noqa: E402
from sv.rules import SpecMods, run_rule_safe  # noqa: E402
from sv import catalog  # noqa: E402


def findings():
    out = {}
    with open(os.path.join(HERE, "known_findings.jsonl"), encoding="utf-8") as f:
        for line in f:
            line = line.strip()
            if line:
                d = json.loads(line)
                if d["status"] == "known":
                    out[(d["property"], d["rule"], d["construct"])] = d
    return out


def decide(repo, specs, prop, known):
    """-> (obligations, violations, known findings, undecided, stats)"""
    stats = {"functions": set(), "events": 0, "rules": []}
    obs, bad, kn, und = [], [], [], []
    for rule, keep in catalog.rules_of(prop):
        rs = [o for o in run_rule_safe(repo, specs, rule, stats, prop) if keep is None or keep(o.name)]
        stats["rules"].append(rule.rid)
        obs += rs
        for o in rs:
            if o.res.k == "ne":
                k = known.get((prop, o.rule, o.name))
                if k is not None and o.finding:
                    kn.append((o, k))
                else:
                    bad.append(o)
            elif o.res.k != "eq":
                und.append(o)
    return obs, bad, kn, und, stats


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("SV_REPO", "/repo"))
    a = ap.parse_args()
    t0 = time.time()
    try:
        repo = Repo(a.repo)
        specs = SpecMods()
        obs, bad, kn, und, stats = decide(repo, specs, a.prop, findings())
    except AnalysisBroken as e:
        print(f"ERROR property={a.prop}: {e}")
        return 2
    if not obs:
        print(f"ERROR property={a.prop}: nothing to decide")
        return 2
    extra = {}
    if a.tier == "thorough" and not bad:
        from sv.sweep import sweep
        extra = sweep(a.repo, specs, a.prop)
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Every function below was parsed from the current source and reduced to a gated value-flow summary (state written, value returned, raise condition, ordered "
                           "calls) valid for all inputs; each component of the summary is one obligation, compared with the reference text of the operation under /verif/spec or with an "
                           "effect rule. discharged: equal for all inputs; undecided: the comparison met a construct without a fixed meaning and gave no verdict.",
            "rules": stats["rules"], "obligations": len(obs), "discharged": sum(o.res.k == "eq" for o in obs), "undecided": len(und), "findings": len(kn),
            "functions_analysed": len(stats["functions"]), "events_analysed": stats["events"], "functions": sorted(stats["functions"]),
            "samples": [f"{o.where}: {o.rule} / {o.name}: {o.res.k}" for o in obs[:8]],
            "undecided_list": [f"{o.rule} / {o.name}: {o.res.why[:300]}" for o in und[:40]],
            **extra,
        },
        "assumptions": ["the Python source means what the language reference says; external libraries (numpy, pandas, dimod, pyqubo, Beam) are uninterpreted, equal calls being equal",
                        "floating point arithmetic is treated as exact", "caller-supplied functions and placeholders do not mutate the model behind the library's back"],
        "violations": len(bad), "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    for o, k in kn:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    for o in und:
        print(f"undecided: {o.where} {o.rule} / {o.name}: {o.res.why[:200]}")
    print(f"{a.prop}: {len(stats['rules'])} rules, {len(obs)} obligations, {sum(o.res.k == 'eq' for o in obs)} discharged, {len(und)} undecided, {len(kn)} findings, {len(bad)} violations")
    if bad:
        rp = os.path.join(HERE, "evidence", a.prop + ".violation.txt")
        with open(rp, "w", encoding="utf-8") as f:
            f.write(f"replay: python3 {os.path.join(HERE, 'run.py')} {a.prop}\n")
            for o in bad:
                f.write(f"{o.where}\n  rule {o.rule}, obligation '{o.name}'\n  {o.res.why}\n")
        for o in bad[:6]:
            print(f"  {o.where}: {o.rule} / {o.name}: {o.res.why[:400]}")
        print(f"VIOLATION property={a.prop} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
