"""Command lines given to the real ferryctl (CommandLineSim), and what came of
them at a real daemon, checked by TLC (CommandLineTrace)."""
import json, os, sys

from ..base import *
from ..tlc import tlc, printed
from ..build import ferryctl
from .core import tail

sys.path.insert(0, os.path.join(VERIF, "tools"))
import mkuni


def ctl(ctx, seed, num, script=None):
    d = ctx.dir("ctl")
    with ctx.lock:
        exe = ferryctl(ctx.work)
    uni = os.path.join(d, "u")
    os.makedirs(uni)
    mkuni.universe("daemon", 1 + seed % 5, uni, 10)
    if script:
        sessions = [script]
    else:
        rc, out = tlc("CommandLineSim", "CommandLineSim.cfg", d, ["-simulate", "num=%d" % num, "-depth", "40", "-seed", str(seed)], timeout=300, heap="1g")
        s = printed(out, "SCRIPT")
        if not s:
            raise CheckError("TLC generated no behaviours:\n" + tail(out))
        sessions = [dict(json.loads(x), run=k) for k, x in enumerate(s)]
    with open(os.path.join(d, "in"), "w") as f:
        for s in sessions:
            f.write(json.dumps(s) + "\n")
    trace = os.path.join(d, "trace")
    run_harness(ctx, "ctl", d, VERIF_UNI=uni, VERIF_IN=os.path.join(d, "in"), VERIF_OUT=trace, VERIF_CTL=exe)
    lines = jsonl(trace)
    rc, out = tlc("CommandLineTrace", "CommandLineTrace.cfg", d, env={"TRACE": trace}, timeout=600, heap="1500m")
    if not printed(out, "DONE"):
        raise CheckError("TLC did not check the trace:\n" + tail(out))
    res = Result()
    byrun = {s["run"]: s for s in sessions}
    for x in printed(out, "VIOL"):
        v = json.loads(x)
        l = lines[v["line"] - 1]
        for x in v["vs"]:
            res.violations.append(dict(prop="C25", what=x, detail={k: l[k] for k in ("argv", "up", "jobs", "err", "shown", "out")},
                                       replay=dict(part="ctl", args=dict(seed=seed, num=1, script=byrun[v["run"]]))))
    for l in lines:
        res.counts["steps"] += 1
        res.counts["op ferryctl " + " ".join(l["inv"]["path"])] += 1
        res.counts["command lines that ask for something"] += len(l["jobs"])
        res.counts["command lines that are refused"] += l["up"] and l["err"] != ""
        res.counts["command lines without a daemon"] += not l["up"]
        if l["jobs"]:
            res.distinct.add(json.dumps(l["inv"]["rest"]) + json.dumps(l["inv"]["path"]))
    res.counts["traces"] += len(sessions)
    if lines:
        res.samples.append(dict(seed=seed, commands=[l["argv"] for l in lines[:12]]))
    rm(d)
    return res
