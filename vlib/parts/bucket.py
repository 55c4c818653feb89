"""The key-value store: behaviours of BucketStore replayed on libdb, and the
recorded executions checked by TLC (BucketSim, BucketTrace)."""
import json, os, sys

from ..base import *
from ..tlc import tlc, printed
from .core import tail

sys.path.insert(0, os.path.join(VERIF, "tools"))
import mkbucket


def bucket(ctx, profile, seed, num, depth, script=None):
    d = ctx.dir("bucket")
    u = os.path.join(d, "uni.json")
    json.dump(mkbucket.universe(profile, seed, depth), open(u, "w"))
    if script:
        runs = [script]
    else:
        rc, out = tlc("BucketSim", "BucketSim.cfg", d, ["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed)], env={"UNIVERSE": u}, heap="1g")
        runs = [json.loads(x) for x in printed(out, "SCRIPT")]
        if not runs:
            raise CheckError("TLC generated no behaviours:\n" + tail(out))
    with open(os.path.join(d, "in"), "w") as f:
        for k, s in enumerate(runs):
            f.write(json.dumps(dict(run=k, ops=s)) + "\n")
    trace = os.path.join(d, "trace")
    run_harness(ctx, "bucket", d, VERIF_UNI=u, VERIF_IN=os.path.join(d, "in"), VERIF_OUT=trace)
    rc, out = tlc("BucketTrace", "BucketTrace.cfg", d, env={"UNIVERSE": u, "TRACE": trace}, heap="1500m")
    if not printed(out, "DONE"):
        raise CheckError("TLC did not check the trace:\n" + tail(out))
    res = Result()
    lines = jsonl(trace)
    for x in printed(out, "VIOL"):
        v = json.loads(x)
        at = lines[v["line"] - 1]
        n = sum(1 for l in lines[:v["line"]] if l["run"] == v["run"] and l["kind"] == "step")
        viol = dict(prop="C19", what="store: %s" % at["op"].get("op", "new store"), detail=dict(op=at["op"], ok=at["ok"], err=at["err"], res=at["res"]),
                    replay=dict(part="bucket", args=dict(profile=profile, seed=seed, num=1, depth=depth, script=runs[v["run"]][:n])))
        if profile == "dash" and v["flat"]:
            # exactly what joining the names with "-" brings about
            viol["finding"] = "bucket-alias"
            viol["what"] = "names joined by \"-\" meet"
        res.violations.append(viol)
    for l in lines:
        if l["kind"] == "step":
            res.counts["steps"] += 1
            res.counts["op store %s %s" % (l["op"]["op"], "done" if l["ok"] else "refused")] += 1
            res.distinct.add(json.dumps(l["op"], sort_keys=True) + str(hash(json.dumps(sorted(map(str, l["st"]))))))
    res.counts["traces"] += len(runs)
    res.samples.append(dict(profile=profile, seed=seed, operations=[l["op"] for l in lines[1:7]]))
    rm(d)
    return res
