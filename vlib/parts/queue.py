"""The job store and its workers: what JobQueueSim generates is done with the
real ones, and the recorded histories are checked by TLC (JobQueueTrace)."""
import json, os, re

from ..base import *
from ..tlc import tlc, printed
from .core import tail

PROP = {"order": "C13", "crash": "C14", "hist": "C15"}


def queue(ctx, profile, seed, num, depth, script=None, prop=None):
    d = ctx.dir("queue")
    prop = prop or PROP[profile]
    if script:
        runs = [script]
    else:
        rc, out = tlc("JobQueueSim", "JobQueueSim.cfg", d, ["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed)],
                      env={"PROFILE": profile, "DEPTH": str(depth)}, heap="1g")
        runs = [json.loads(x) for x in printed(out, "SCRIPT")]
        if not runs:
            raise CheckError("TLC generated no behaviours:\n" + tail(out))
    with open(os.path.join(d, "in"), "w") as f:
        for k, s in enumerate(runs):
            f.write(json.dumps(dict(run=k, ops=s)) + "\n")
    trace = os.path.join(d, "trace")
    run_harness(ctx, "workers" if profile == "auto" else "queue", d, VERIF_IN=os.path.join(d, "in"), VERIF_OUT=trace)
    lines = jsonl(trace)
    res = Result()
    bad = accepted(d, trace, range(len(runs)))
    for k in bad:
        # once more, to see how far it can be explained
        part = os.path.join(d, "part")
        mine = [l for l in lines if l["run"] == k]
        with open(part, "w") as f:
            for l in mine:
                f.write(json.dumps(l) + "\n")
        at = furthest(d, part)
        l = mine[at] if at < len(mine) else mine[-1]
        res.violations.append(dict(prop=prop, what="%s: cannot be explained: %s %s" % (profile, l["ev"], (l.get("o") or {}).get("op", "")),
                                   detail=dict(line=l, before=mine[max(0, at - 6):at]),
                                   replay=dict(part="queue", args=dict(profile=profile, seed=seed, num=1, depth=depth, script=runs[k], prop=prop))))
    for l in lines:
        if l["ev"] in ("op", "ret"):
            res.counts["steps"] += 1
            res.counts["op queue %s" % l["o"]["op"]] += 1
        elif l["ev"] in ("crash", "start", "touch", "idle"):
            res.counts["queue " + l["ev"]] += 1
    for l in lines:
        if l["ev"] in ("op", "ret"):
            res.distinct.add(json.dumps([l["o"], l["res"]])[:300])
    res.counts["traces"] += len(runs)
    res.samples.append(dict(profile=profile, seed=seed, operations=runs[0][:6]))
    rm(d)
    return res


def accepted(d, trace, runs):
    """The runs that no behaviour explains."""
    rc, out = tlc("JobQueueTrace", "JobQueueTrace.cfg", d, env={"TRACE": trace}, heap="1500m")
    if "Model checking completed. No error has been found." not in out:
        raise CheckError("TLC did not check the trace:\n" + tail(out))
    ok = {int(x) for x in printed(out, "OK")}
    return [k for k in runs if k not in ok]


def furthest(d, trace):
    rc, out = tlc("JobQueueTrace", "JobQueueTrace.cfg", d, env={"TRACE": trace, "EXPLAIN": "1"}, heap="1500m")
    return max([int(x.split()[0]) for x in printed(out, "AT")] + [1])
