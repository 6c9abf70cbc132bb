#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]  -- static check of one property of /repo's current source.
exit 0: holds on everything analysed; exit 1: VIOLATION printed; exit 2: analysis broken."""

import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.core import Ctx, AnalysisBroken  # noqa: E402
from sa import registry  # noqa: E402


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {f["key"]: f for f in json.load(open(p))["findings"] if f["property"] == prop and f.get("status") == "known"}


def shared(ctx, q, prefixes, tier, seed):
    """decide the obligations of a building block this property depends on, under this property"""
    c = Ctx(q, tier, seed)
    e = registry.RULES[q]
    mod = importlib.import_module("sa.rules." + e["module"])
    getattr(mod, e["func"])(c)
    n = 0
    known = known_findings(q)
    bad = {v["key"]: v for v in c.violations}
    for k, ok in c.obs:
        if k.startswith(prefixes) and k not in known:
            n += 1
            v = bad.get(k, {})
            ctx.ob(q + "/" + k, ok, v.get("where", ""), v.get("msg", ""))
    ctx.need(n > 0, "no shared obligation of %s found" % q)
    ctx.funcs |= c.funcs
    ctx.events += c.events


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    t0 = time.time()
    try:
        ctx = Ctx(prop, tier, seed)
        entry = registry.RULES[prop]
        mod = importlib.import_module("sa.rules." + entry["module"])
        getattr(mod, entry["func"])(ctx)
        ctx.floor(entry.get("floor", 1))
        for q, prefixes in registry.ALSO.get(prop, ()):
            shared(ctx, q, tuple(prefixes), tier, seed)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
    kf = known_findings(prop)
    new = [v for v in ctx.violations if v["key"] not in kf]
    old = {v["key"]: v for v in ctx.violations if v["key"] in kf}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": entry["level"],
        "coverage": {
            "explanation": entry["explain"],
            "obligations_decided": ctx.obligations,
            "obligation_keys": sorted({k for k, _ in ctx.obs})[:400],
            "functions_analysed": sorted(ctx.funcs),
            "function_count": len(ctx.funcs),
            "events_examined": ctx.events,
            "modules_parsed": len(ctx.repo.modules),
            "known_findings_seen": sorted(old),
            "notes": ctx.notes,
        },
        "assumptions": entry.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[k]["what"]))
    if new:
        rp = os.path.join(VERIF, "evidence", prop + ".violation.txt")
        with open(rp, "w") as fh:
            for v in new:
                fh.write("rule instance: %s\nwhere: %s\n%s\n\n" % (v["key"], v["where"], v["msg"]))
        for v in new[:20]:
            print("  %s at %s: %s" % (v["key"], v["where"], str(v["msg"])[:int(os.environ.get("WIDTH", "900"))]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d events=%d" % (prop, ctx.obligations, len(ctx.funcs), ctx.events))
    return 0


if __name__ == "__main__":
    sys.exit(main())
