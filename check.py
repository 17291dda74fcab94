#!/usr/bin/env python3
"""Decide properties of /repo by static analysis of its current source.

usage: check.py [--tier quick|thorough] ID [ID...]   (ID "all" runs every property)
"""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "analysis"))
sys.setrecursionlimit(20000)


def known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                f = l.split(" ", 3)
                pid = f[1].split("=", 1)[1]
                rule = f[2].split("=", 1)[1]
                out.setdefault(pid, []).append((rule, f[3]))
    return out


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if args and args[0] == "--tier":
        tier = args[1]
        args = args[2:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import build
    import spec
    import rules
    if args == ["all"]:
        args = sorted(rules.RULES)
    ctx = spec.Ctx(tier, seed)
    rc = 0
    kn = known()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    for pid in args:
        t0 = time.time()
        rep = spec.Report(pid)
        try:
            rules.decide(ctx, pid, rep, spec)
        except build.BuildError as e:
            if "not compile" in str(e):
                # a tree that does not build with its default features is not a tree to judge
                rep.bad("builds", "/repo", str(e) + "\n" + e.log[-3000:])
            else:
                raise
        vs = rep.violations()
        fresh, listed = [], []
        for v in vs:
            if any(r == v.rule and w in v.msg for r, w in kn.get(pid, [])):
                listed.append(v)
            else:
                fresh.append(v)
        n = {s: sum(1 for o in rep.obls if o.status == s) for s in ("ok", "violation", "undecided")}
        rules_used = {}
        for o in rep.obls:
            d = rules_used.setdefault(o.rule, {"ok": 0, "violation": 0, "undecided": 0})
            d[o.status] += 1
        und = [{"rule": o.rule, "where": o.where, "why": o.msg[:300]} for o in rep.obls if o.status == "undecided"]
        out = {
            "property": pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": rules.EXPLAIN[pid],
                "obligations": len(rep.obls), "obligations_ok": n["ok"], "obligations_undecided": n["undecided"],
                "functions_analysed": sorted(rep.functions), "call_sites": rep.calls, "effects": rep.events,
                "rules": rules_used, "undecided": und[:50], "notes": rep.notes[:50],
            },
            "violations": [{"rule": v.rule, "where": v.where, "what": v.msg[:2000]} for v in fresh],
            "wall_s": round(time.time() - t0, 2),
        }
        path = os.path.join(ev, pid + ".json")
        with open(path, "w") as f:
            json.dump(out, f, indent=1)
        for v in listed:
            print(f"KNOWN-FINDING: property={pid} {v.rule}: {v.where}: {v.msg[:300]}")
        print(f"{pid}: {n['ok']} obligations hold, {n['undecided']} undecided, {len(fresh)} violated"
              f" ({len(rep.functions)} functions, {rep.calls} call sites, {out['wall_s']} s)")
        for v in fresh[:20]:
            print(f"  {v.rule}: {v.where}: {v.msg[:600]}")
        if fresh:
            print(f"VIOLATION property={pid} replay={path}")
            rc = 1
        sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
