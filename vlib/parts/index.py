"""Publication of the index: histories of IndexSim, and every single failing
step or crash point of a run, done with the real code; what was visible at each
point is checked by TLC (IndexTrace)."""
import json, os, sys

from ..base import *
from ..tlc import tlc, printed
from .core import tail

sys.path.insert(0, os.path.join(VERIF, "tools"))
import mkuni

POINTS = 110


def index(ctx, seed, num=0, depth=0, sweep=None, script=None):
    """sweep: (kind of fault, first point, step): one history for each point"""
    d = ctx.dir("index")
    uni = os.path.join(d, "uni")
    os.makedirs(uni)
    mkuni.universe("index", seed, uni, 10)
    if script:
        runs = [script]
    elif sweep:
        kind, first, step = sweep
        runs = [[dict(op="assets", n=5), dict(op="import", n=0), dict(op="assets", n=seed % 64), dict(op="index", fault=kind, at=k),
                 dict(op="assets", n=(seed * 7 + 11) % 64), dict(op="index", fault="", at=0)] for k in range(first, POINTS, step)]
    else:
        rc, out = tlc("IndexSim", "IndexSim.cfg", d, ["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed)],
                      env={"DEPTH": str(depth), "POINTS": str(POINTS)}, heap="1g")
        runs = [json.loads(x) for x in printed(out, "SCRIPT")]
        if not runs:
            raise CheckError("TLC generated no behaviours:\n" + tail(out))
    with open(os.path.join(d, "in"), "w") as f:
        for k, s in enumerate(runs):
            f.write(json.dumps(dict(run=k, ops=s)) + "\n")
    trace = os.path.join(d, "trace")
    run_harness(ctx, "index", d, VERIF_UNI=uni, VERIF_IN=os.path.join(d, "in"), VERIF_OUT=trace)
    rc, out = tlc("IndexTrace", "IndexTrace.cfg", d, env={"TRACE": trace}, heap="1500m")
    if not printed(out, "DONE"):
        raise CheckError("TLC did not check the trace:\n" + tail(out))
    res = Result()
    lines = jsonl(trace)
    for x in printed(out, "VIOL"):
        v = json.loads(x)
        at = lines[v["line"] - 1]
        res.violations.append(dict(prop="C05", what="index: %s" % v["what"], detail={k: at[k] for k in ("ev", "ok", "err", "fault", "at", "vis")},
                                   replay=dict(part="index", args=dict(seed=seed, script=runs[v["run"]]))))
    for l in lines:
        res.counts["steps"] += 1
        if l["ev"] == "end":
            res.counts["op index %s" % ("succeeded" if l["ok"] else "failed")] += 1
        if l["ev"] == "crash":
            res.counts["op index crashed"] += 1
        if l["at"] and l["ev"] in ("end", "crash"):
            res.distinct.add(l["ev"] + " " + l["at"])
        res.counts["index " + l["ev"]] += 1
    res.counts["traces"] += len(runs)
    res.samples.append(dict(seed=seed, sweep=sweep, operations=runs[0]))
    rm(d)
    return res
