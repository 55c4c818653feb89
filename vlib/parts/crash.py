"""Crashes: jobs of FerryCoreSim's behaviours done with the real code, cut off
at the points where something has changed, and run again after a restart; what
was left and what came of it is checked by TLC (FerryCrashTrace)."""
import json, os, random, sys

from ..base import *
from ..tlc import tlc, printed
from .core import scripts, tail

sys.path.insert(0, os.path.join(VERIF, "tools"))
import mkuni

KINDS = ["create", "delete", "import", "upload", "clone", "pull", "copy", "remove", "trim", "trimobs", "index", "delta"]


def crash(ctx, profile, seed, num, depth, link, points=10, fails=3, jobs=4, script=None):
    """jobs: how many jobs of each behaviour are cut off or have writes failing, more or less"""
    d = ctx.dir("crash")
    uni = os.path.join(d, "uni")
    os.makedirs(uni)
    mkuni.universe(profile, seed, uni, depth)
    runs = []
    if script:
        runs = [script]
    else:
        rng = random.Random(seed)
        for k, s in enumerate(scripts(d, uni, seed, num, depth)):
            # Kinds that come seldom, first
            last = s[depth // 4:]
            rng.shuffle(last)
            kinds = sorted({o["op"] for o in last if o["op"] in KINDS}, key=lambda x: sum(o["op"] == x for o in last) + rng.random())
            pick, n = [], 0
            for x in kinds:
                pick.append(x)
                n += sum(o["op"] == x for o in last)
                if n >= jobs:
                    break
            runs.append(dict(run=k, link=link, ops=s, kinds=pick, seed=seed * 100 + k, points=points, fails=fails, **{"from": depth // 4}))
    with open(os.path.join(d, "in"), "w") as f:
        for r in runs:
            f.write(json.dumps(r) + "\n")
    trace = os.path.join(d, "trace")
    run_harness(ctx, "crash", d, VERIF_UNI=uni, VERIF_IN=os.path.join(d, "in"), VERIF_OUT=trace)
    rc, out = tlc("FerryCrashTrace", "FerryCrashTrace.cfg", d, env={"UNIVERSE": os.path.join(uni, "uni.json"), "TRACE": trace}, timeout=600, heap="2g")
    if not printed(out, "DONE"):
        raise CheckError("TLC did not check the trace:\n" + tail(out))
    res = Result()
    lines = jsonl(trace)
    byrun = {r["run"]: r for r in runs}
    for x in printed(out, "VIOL"):
        v = json.loads(x)
        at = lines[v["line"] - 1]
        n = sum(1 for l in lines[:v["line"]] if l["run"] == v["run"] and l["kind"] == "step")
        r = dict(byrun[v["run"]])
        r["ops"] = r["ops"][:n]
        for x in v["vs"]:
            e = dict(prop=x["prop"], what=x["what"] + (" (%s)" % at["at"] if "at" in at else ""),
                     detail=dict(op=at["op"], ok=at["ok"], err=at["err"], at=at.get("at", "")),
                     replay=dict(part="crash", args=dict(profile=profile, seed=seed, num=1, depth=depth, link=link, script=r)))
            if "finding" in x:
                e["finding"] = x["finding"]
            res.violations.append(e)
    for l in lines:
        if l["kind"] == "step":
            res.counts["steps"] += 1
            res.counts["op %s %s" % (l["op"]["op"], "done" if l["ok"] else "refused")] += 1
        if l["kind"] == "fail":
            res.counts["writes failed"] += 1
            res.counts["a write failed in %s: %s" % (l["op"]["op"], "done nevertheless" if l["done"] else "refused, then " + ("done" if l["ok"] else "refused"))] += 1
            res.distinct.add(l["op"]["op"] + " failing " + l["at"])
        if l["kind"] == "crash":
            res.counts["crashes"] += l["crash"]
            res.counts["crashed %s, then %s" % (l["op"]["op"], "done" if l["ok"] else "refused")] += 1
            res.distinct.add(l["op"]["op"] + " " + l["at"])
    res.counts["traces"] += len(runs)
    res.samples.append(dict(profile=profile, seed=seed, link=link, crashes=[dict(op=l["op"], at=l["at"], ok=l["ok"]) for l in lines if l["kind"] == "crash"][:6]))
    rm(d)
    return res
