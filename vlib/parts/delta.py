"""Deltas between pairs of packages (DeltaSim) made by the real code, some of
them with a step that fails, and checked by TLC (DeltaTrace)."""
import json, os

from ..base import *
from ..tlc import tlc, printed
from .core import tail


def delta(ctx, seed, num=0, script=None):
    d = ctx.dir("delta")
    if script:
        runs = [script]
    else:
        rc, out = tlc("DeltaSim", "DeltaSim.cfg", d, ["-simulate", "num=1", "-depth", str(num + 2), "-seed", str(seed)], env={"NUM": str(num)}, heap="1g")
        runs = [json.loads(x) for x in printed(out, "SCRIPT")]
        if not runs:
            raise CheckError("TLC generated no pairs of packages:\n" + tail(out))
    with open(os.path.join(d, "in"), "w") as f:
        for s in runs:
            f.write(json.dumps(s) + "\n")
    trace = os.path.join(d, "trace")
    run_harness(ctx, "delta", d, VERIF_IN=os.path.join(d, "in"), VERIF_OUT=trace)
    rc, out = tlc("DeltaTrace", "DeltaTrace.cfg", d, env={"TRACE": trace}, heap="1500m")
    if not printed(out, "DONE"):
        raise CheckError("TLC did not check the trace:\n" + tail(out))
    res = Result()
    lines = jsonl(trace)
    for x in printed(out, "VIOL"):
        v = json.loads(x)
        at = lines[v["line"] - 1]
        res.violations.append(dict(prop="C16", what="delta: %s" % v["what"], detail={k: at[k] for k in ("res", "err", "fault", "at", "panic", "left", "target")},
                                   replay=dict(part="delta", args=dict(seed=seed, script=runs[at["k"]]))))
    for l in lines:
        res.counts["steps"] += 1
        res.counts["op delta %s" % l["res"]] += 1
        if l["fault"]:
            res.counts["faults"] += 1
            res.distinct.add("%s at %s" % (l["res"], l["at"]))
        if l["res"] == "ok":
            res.distinct.add(json.dumps([l["delta"]["tar"], l["old"]["files"]]))
    res.counts["traces"] += len(runs)
    if lines:
        l = lines[0]
        res.samples.append(dict(seed=seed, old=l["old"]["files"], new=l["new"]["files"], outcome=l["res"], archive=[x["p"] for x in l["delta"]["tar"]]))
    rm(d)
    return res
