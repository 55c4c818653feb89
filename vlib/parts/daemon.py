"""Sessions of clients with the real daemon, over its socket, checked by TLC
(DaemonSim, DaemonTrace), and names of repositories in requests (ClientPath)."""
import itertools, json, os, re, sys

from ..base import *
from ..tlc import tlc, printed
from .core import tail

sys.path.insert(0, os.path.join(VERIF, "tools"))
import mkuni


def run(ctx, d, uni, sessions, replay):
    with open(os.path.join(d, "in"), "w") as f:
        for s in sessions:
            f.write(json.dumps(s) + "\n")
    trace = os.path.join(d, "trace")
    rc, out = harness(ctx, "daemon", d, VERIF_UNI=uni, VERIF_IN=os.path.join(d, "in"), VERIF_OUT=trace)
    res = Result()
    lines = jsonl(trace) if os.path.exists(trace) else []
    byrun = {s["run"]: s for s in sessions}

    def upto(r, k):
        return dict(byrun[r], acts=byrun[r]["acts"][:k])

    if rc != 0:
        # Only what ferryd itself does can end it
        if not crash(out):
            raise CheckError("the harness failed:\n" + out[-6000:])
        r = lines[-1]["run"] if lines else sessions[0]["run"]
        for p in ("C22", "C23"):
            res.violations.append(dict(prop=p, what="the daemon crashed: " + crash(out), detail=dict(output=out[-3000:]),
                                       replay=replay(dict(byrun[r]))))
    if lines:
        rc, out = tlc("DaemonTrace", "DaemonTrace.cfg", d, env={"UNIVERSE": os.path.join(uni, "uni.json"), "TRACE": trace}, timeout=600, heap="1500m")
        if not printed(out, "DONE"):
            raise CheckError("TLC did not check the trace:\n" + tail(out))
        for x in printed(out, "VIOL"):
            v = json.loads(x)
            at = lines[v["line"] - 1]
            n = sum(1 for l in lines[:v["line"]] if l["run"] == v["run"] and l["kind"] == "act")
            for x in v["vs"]:
                res.violations.append(dict(prop=x["prop"], what=x["what"], detail={k: at[k] for k in ("act", "es", "acc", "errs", "fin", "cur")},
                                           replay=replay(upto(v["run"], n))))
    for l in lines:
        if l["kind"] != "act":
            continue
        res.counts["steps"] += 1
        for e in l["es"]:
            res.counts["op %s requested" % e["op"]["op"]] += 1
        if l["act"]["a"] not in ("req", "burst"):
            res.counts["op " + l["act"]["a"]] += 1
        for f in l["fin"]:
            res.counts["jobs done" if f["ok"] else "jobs failed"] += 1
            res.distinct.add(f["desc"] + str(f["ok"]))
        res.counts["status compared"] += l["snap"]
        res.counts["states compared"] += l["drained"]
        res.counts["status with jobs waiting"] += len(l["cur"]) > 1
    res.counts["traces"] += len(sessions)
    return res, lines


def daemon(ctx, seed, num, depth, link, profile="daemon", script=None):
    d = ctx.dir("daemon")
    uni = os.path.join(d, "u")
    os.makedirs(uni)
    mkuni.universe(profile, seed, uni, depth)
    if script:
        sessions = [script]
    else:
        rc, out = tlc("DaemonSim", "DaemonSim.cfg", d, ["-simulate", "num=%d" % num, "-depth", str(depth * 4), "-seed", str(seed)],
                      env={"UNIVERSE": os.path.join(uni, "uni.json")}, timeout=300, heap="1g")
        s = printed(out, "SCRIPT")
        if not s:
            raise CheckError("TLC generated no behaviours:\n" + tail(out))
        sessions = [dict(run=k, link=link, acts=json.loads(x)) for k, x in enumerate(s)]
    res, lines = run(ctx, d, uni, sessions, lambda s: dict(part="daemon", args=dict(profile=profile, seed=seed, num=1, depth=depth, link=link, script=s)))
    res.samples.append(dict(seed=seed, link=link, acts=[l["act"] for l in lines[1:9]]))
    rm(d)
    return res


def names(ctx, length, share=0, shares=1, script=None):
    """Requests for all names of ClientPath, one after another, none of them done."""
    d = ctx.dir("names")
    uni = os.path.join(d, "u")
    os.makedirs(uni)
    mkuni.universe("daemon", 1, uni, 10)
    if script:
        sessions = [script]
    else:
        chars = ["a", "4", "1", "%", "/", "?", "#", " ", "é", "&", "+", ":", ".", "\\", "\"", "\n", "\u2028"]
        every = ["".join(x) for n in range(length + 1) for x in itertools.product(chars[:8], repeat=n)]
        every += ["".join(x) for n in (1, 2) for x in itertools.product(chars, repeat=n) if any(c in chars[8:] for c in x)]
        every = every[share::shares]
        sessions = []
        fs = sorted(json.load(open(os.path.join(uni, "uni.json")))["files"])
        for at in range(0, len(every), 60):
            acts = [dict(a="hold"), dict(a="req", op=dict(op="create", repo="first"))]
            for k, n in enumerate(every[at:at + 60]):
                o = [dict(op="remove", repo=n, source="s" + n, rel=k - 30), dict(op="create", repo=n), dict(op="delete", repo=n), dict(op="index", repo=n),
                     dict(op="clone", repo=n, target="t" + n, full=k % 2 == 0), dict(op="pull", repo="s" + n, target=n), dict(op="trim", repo=n, keep=k - 30),
                     dict(op="trimobs", repo=n), dict(op="copy", repo=n, target="t" + n, source="s" + n, rel=30 - k, skip=k % 3 == 0),
                     dict(op="deltarepo", repo=n), dict(op="import", repo=n, files=fs[:k % 4])][(k + at // 60) % 11]
                acts.append(dict(a="req", op=o, quiet=True))
                if k % 12 == 11:
                    acts.append(dict(a="status"))
            acts.append(dict(a="restart") if at % 120 == 60 else dict(a="status"))
            sessions.append(dict(run=len(sessions), link="", acts=acts[:-1] + [dict(a="status")] if at % 120 != 60 else acts, leave=at % 120 != 60))
    res, lines = run(ctx, d, uni, sessions, lambda s: dict(part="names", args=dict(length=1, script=s)))
    rm(d)
    return res
