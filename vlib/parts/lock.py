"""Daemons on one base directory: schedules of LockSim followed by real
processes, held at their steps; what they did is checked by TLC (LockTrace)."""
import json, os, random

from ..base import *
from ..tlc import tlc, printed
from .core import tail

LEFT = ["none", "empty", "garbage", "dead", "parent", "first", "long", "socket"]


def lock(ctx, seed, num, depth, script=None):
    d = ctx.dir("lock")
    rng = random.Random(seed)
    if script:
        runs = [script]
    else:
        rc, out = tlc("LockSim", "LockSim.cfg", d, ["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(seed)],
                      env={"DEPTH": str(depth)}, heap="1g")
        runs = [dict(run=k, seed=seed * 100 + k, left=rng.choice(LEFT), activated=rng.random() < 0.4, ops=json.loads(x)) for k, x in enumerate(printed(out, "SCRIPT"))]
        if not runs:
            raise CheckError("TLC generated no behaviours:\n" + tail(out))
    with open(os.path.join(d, "in"), "w") as f:
        for r in runs:
            f.write(json.dumps(r) + "\n")
    trace = os.path.join(d, "trace")
    run_harness(ctx, "lock", d, VERIF_IN=os.path.join(d, "in"), VERIF_OUT=trace)
    rc, out = tlc("LockTrace", "LockTrace.cfg", d, env={"TRACE": trace}, heap="1g")
    if not printed(out, "DONE"):
        raise CheckError("TLC did not check the trace:\n" + tail(out))
    res = Result()
    lines = jsonl(trace)
    byrun = {r["run"]: r for r in runs}
    for x in printed(out, "VIOL"):
        v = json.loads(x)
        before = [l for l in lines[:v["line"]] if l["run"] == v["run"]]
        for w in v["whats"]:
            res.violations.append(dict(prop="C20", what=w, detail=[" ".join((l["p"], l["ev"], l["what"])) for l in before[-12:]],
                                       replay=dict(part="lock", args=dict(seed=seed, num=1, depth=depth, script=byrun[v["run"]]))))
    used = set()
    for l in lines:
        res.counts["steps"] += 1
        if l["ev"] == "start":
            res.counts["op start"] += 1
            used.discard((l["run"], l["p"]))
        if l["ev"] == "use":
            used.add((l["run"], l["p"]))
        if l["ev"] == "closed":
            res.counts["op stopped"] += 1
        if l["ev"] == "gone":
            if l["killed"]:
                res.counts["op killed"] += 1
            elif (l["run"], l["p"]) not in used:
                res.counts["op refused"] += 1
    for r in runs:
        res.distinct.add(json.dumps(r["ops"]))
    res.counts["traces"] += len(runs)
    res.samples.append(runs[0])
    rm(d)
    return res
