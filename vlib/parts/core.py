"""Behaviours of FerryCore replayed on the real code, and the recorded
executions checked by TLC (FerryCoreSim, FerryTrace)."""
import json, os, sys, subprocess

from ..base import *
from ..tlc import tlc, printed

sys.path.insert(0, os.path.join(VERIF, "tools"))
import mkuni


def scripts(d, uni, seed, num, depth):
    rc, out = tlc("FerryCoreSim", "FerryCoreSim.cfg", d, ["-simulate", "num=%d" % num, "-depth", str(depth * 4), "-seed", str(seed)],
                  env={"UNIVERSE": os.path.join(uni, "uni.json")}, timeout=300, heap="1g")
    s = printed(out, "SCRIPT")
    if not s:
        raise CheckError("TLC generated no behaviours:\n" + tail(out))
    return [json.loads(x) for x in s]


def tail(out):
    return "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))[-4000:]


def validate(d, uni, trace):
    rc, out = tlc("FerryTrace", "FerryTrace.cfg", d, env={"UNIVERSE": os.path.join(uni, "uni.json"), "TRACE": trace}, timeout=600, heap="1500m")
    if not printed(out, "DONE"):
        raise CheckError("TLC did not check the trace:\n" + tail(out))
    return [json.loads(x) for x in printed(out, "VIOL")]


def core(ctx, profile, seed, num, depth, link, script=None):
    d = ctx.dir("core")
    uni = os.path.join(d, "uni")
    os.makedirs(uni)
    mkuni.universe(profile, seed, uni, depth)
    runs = [script] if script else scripts(d, uni, seed, num, depth)
    with open(os.path.join(d, "in"), "w") as f:
        for k, s in enumerate(runs):
            f.write(json.dumps(dict(run=k, link=link, ops=s)) + "\n")
    trace = os.path.join(d, "trace")
    rc, out = harness(ctx, "core", d, VERIF_UNI=uni, VERIF_IN=os.path.join(d, "in"), VERIF_OUT=trace)
    res = Result()
    lines = jsonl(trace) if os.path.exists(trace) else []
    if rc != 0:
        # What was seen until then counts
        res.errors.append("the harness failed:\n" + out[-6000:])
        with open(trace, "w") as f:
            f.writelines(json.dumps(l) + "\n" for l in lines)
        if crash(out):
            k = lines[-1]["run"] if lines else 0
            n = sum(1 for l in lines if l["run"] == k and l["kind"] == "step")
            if n == len(runs[k]):
                k, n = k + 1, 0
            op = runs[k][n] if k < len(runs) and n < len(runs[k]) else {}
            res.violations.append(dict(prop="C22", what="the daemon crashed: " + crash(out), detail=dict(op=op, output=out[-3000:]),
                                       replay=dict(part="core", args=dict(profile=profile, seed=seed, num=1, depth=depth, link=link,
                                                                          script=runs[min(k, len(runs) - 1)][:n + 1]))))
        if not lines:
            return res
    for v in validate(d, uni, trace):
        at = lines[v["line"] - 1]
        n = 0
        for l in lines[:v["line"]]:
            if l["run"] == v["run"] and l["kind"] == "step":
                n += 1
        for x in v["vs"]:
            res.violations.append(dict(prop=x["prop"], what=x["what"], detail=dict(op=at["op"], ok=at["ok"], err=at["err"]),
                                       replay=dict(part="core", args=dict(profile=profile, seed=seed, num=1, depth=depth, link=link, script=runs[v["run"]][:n]))))
    for l in lines:
        if l["kind"] == "step":
            res.counts["steps"] += 1
            res.counts["op %s %s" % (l["op"]["op"], "done" if l["ok"] else "refused")] += 1
            if l["ok"]:
                res.distinct.add(json.dumps(l["op"], sort_keys=True) + str(hash(json.dumps(l["st"]["repos"], sort_keys=True))))
    res.counts["traces"] += len(runs)
    res.samples.append(dict(profile=profile, seed=seed, link=link, operations=[l["op"] for l in lines[1:7]]))
    rm(d)
    return res


def mc(ctx, config, timeout=600, workers=2):
    """Explores FerryCore exhaustively over a small universe."""
    return modelcheck(ctx, "FerryCoreMC", "FerryCoreMC_%s.cfg" % config, timeout, workers)


def modelcheck(ctx, module, cfg, timeout=600, workers=2, heap="3g", args=(), env=None, expect=None):
    import re
    d = ctx.dir("mc")
    rc, out = tlc(module, cfg, d, list(args), timeout=timeout, heap=heap, workers=workers, env=env)
    res = Result()
    if expect:
        # a deliberately broken model: TLC has to find that out
        if expect not in out:
            raise CheckError("TLC on %s %s did not find: %s\n%s" % (module, cfg, expect, tail(out)))
        res.notes["model %s %s" % (module, cfg)] = "counterexample found, as expected: " + expect
        rm(d)
        return res
    if "Model checking completed. No error has been found." not in out:
        raise CheckError("TLC on %s %s:\n%s" % (module, cfg, tail(out)))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
    g, n = (int(x.replace(",", "")) for x in m[-1])
    res.counts["mc states"] += n
    res.counts["mc transitions"] += g
    res.notes["model %s %s" % (module, cfg)] = "%d states, %d transitions, complete" % (n, g)
    rm(d)
    return res
