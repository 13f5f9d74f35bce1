"""Sensitivity of a property's rules: the analysed functions are rewritten (behaviour kept) and damaged (behaviour changed), and each text is judged by the rules.

Nothing is executed; the texts exist only in memory. The result describes how far the rules see and never changes a verdict.
"""
import os
import random
import time
from multiprocessing import Pool

from . import catalog, mutate
from .load import AnalysisBroken, Repo
from .rules import SpecMods, run_rule_safe

LIMIT = int(os.environ.get("SV_SWEEP_SECONDS", "600"))
CAP = int(os.environ.get("SV_SWEEP_CAP", "900"))


def run(repo, specs, prop, rids, stats=None):
    """-> (names of failing obligations, names of undecided ones)"""
    ne, unk = set(), set()
    for rule, keep in catalog.rules_of(prop):
        if rids is not None and rule.rid not in rids:
            continue
        st = {"functions": set(), "events": 0}
        for o in run_rule_safe(repo, specs, rule, st, prop):
            if keep is not None and not keep(o.name):
                continue
            if o.res.k == "ne":
                ne.add((o.rule, o.name, o.finding))
            elif o.res.k != "eq":
                unk.add((o.rule, o.name))
        if stats is not None:
            stats[rule.rid] = st["functions"]
    return ne, unk


def work(job):
    root, prop, kind, rel, qual, op, line, src, rids, base, end = job
    if time.time() > end:
        return kind, op, rel, line, "skipped"
    try:
        ne, unk = run(Repo(root, {rel: src}), SpecMods(), prop, rids)
    except (AnalysisBroken, SyntaxError):
        return kind, op, rel, line, "unreadable"
    ne = {x for x in ne if not (x[2] and x in base)}
    return kind, op, rel, line, "different" if ne else "undecided" if unk else "equal"


def sweep(root, specs, prop):
    end = time.time() + LIMIT
    stats = {}
    base, _ = run(Repo(root), specs, prop, None, stats)
    users = {}
    for rid, fs in stats.items():
        for x in fs:
            users.setdefault(x, set()).add(rid)
    jobs = []
    for x, rids in sorted(users.items()):
        rel, qual = x.split(":")
        with open(os.path.join(root, rel), encoding="utf-8") as f:
            src = f.read()
        for kind in ("same", "fault"):
            try:
                vs = mutate.variants(src, qual, kind)
            except (KeyError, StopIteration):
                continue
            for op, line, s in vs:
                jobs.append((root, prop, kind, rel, qual, op, line, s, rids, base, end))
    total = len(jobs)
    random.Random(int(os.environ.get("VERIF_SEED", "1") or 1)).shuffle(jobs)
    jobs = jobs[:CAP]
    count = {"same": {}, "fault": {}}
    alarms, quiet = [], []
    with Pool(max(1, min(8, os.cpu_count() or 1)), maxtasksperchild=40) as pool:
        for kind, op, rel, line, res in pool.imap(work, jobs, chunksize=2):
            count[kind][res] = count[kind].get(res, 0) + 1
            if kind == "same" and res == "different":
                alarms.append(f"{rel}:{line} {op}")
            if kind == "fault" and res == "equal":
                quiet.append(f"{rel}:{line} {op}")
    return {"sweep": {
        "explanation": "sensitivity of the rules, not part of the verdict. same: rewritings that keep the behaviour ('different' would be a false alarm); fault: syntactic damage of the functions the "
                       "property depends on, part of which concerns other properties or has no effect ('different': reported).",
        "texts_available": total, "texts_judged": len(jobs), "same": count["same"], "fault": count["fault"], "false_alarms": alarms[:20], "fault_quiet_sample": quiet[:20]}}
