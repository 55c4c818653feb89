#!/usr/bin/env python3
"""check.py ID            decides property ID (VERIF_TIER, VERIF_SEED)
check.py ID --replay F   repeats what was reported with replay=F"""
import json, os, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor, as_completed

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.build import VERIF, BuildError, build
from vlib.base import CheckError, Crashed, Ctx, Result
from vlib.tlc import TLCError
from vlib import plans

KNOWN = os.path.join(VERIF, "known_findings.json")


def known(prop):
    fs = json.load(open(KNOWN))["findings"]
    return [f for f in fs if f["property"] == prop and f["status"] == "open"]


def matches(f, v):
    return v.get("finding") == f["id"]


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", plans.THOROUGH if tier == "thorough" else plans.QUICK))
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3]))
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    res, errors = Result(), []
    try:
        binary = build(work)
        ctx = Ctx(work, binary, seed, tier, t0 + budget)
        if replay:
            tasks = iter([(replay["part"], replay["args"])])
        else:
            tasks = plans.tasks(prop, seed, tier, lambda: time.time() - t0 < budget)
        with ThreadPoolExecutor(8) as ex:
            pending = {}
            done = False
            while True:
                while not done and len(pending) < 8:
                    t = next(tasks, None)
                    if t is None:
                        done = True
                        break
                    pending[ex.submit(plans.run, t[0], ctx, **t[1])] = t
                if not pending:
                    break
                for f in as_completed(pending):
                    t = pending.pop(f)
                    try:
                        res.add(f.result())
                    except Crashed as e:
                        res.violations.append(dict(prop=prop, what="ferryd's code crashed: " + e.what, detail=str(e)[-2000:],
                                                   replay=dict(part=t[0], args=t[1])))
                    except Exception as e:
                        errors.append("%s" % (traceback.format_exc() if not isinstance(e, CheckError) else e))
                    break
                # Others may still tell what is wrong
                done = done or len(errors) + len(res.errors) > 3
                if tier == "quick" and any(v["prop"] == prop and "finding" not in v for v in res.violations):
                    done = True
    except BuildError as e:
        print("BUILD FAILED\n%s" % e)
        shutil.rmtree(work, ignore_errors=True)
        return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)

    errors += res.errors
    mine = [v for v in res.violations if v["prop"] == prop]
    findings = known(prop)
    new, reported = [], set()
    for v in mine:
        k = [f for f in findings if matches(f, v)]
        if k:
            reported.add(k[0]["id"])
        else:
            new.append(v)
    if not replay:
        plans.evidence(prop, tier, seed, res, len(new), time.time() - t0)
        for f in findings:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    others = sorted({v["prop"] for v in res.violations} - {prop})
    if others:
        print("(seen as well: violations of %s)" % ", ".join(others))
    if new:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in new:
            if v["what"] in seen or len(seen) >= 5:
                continue
            seen.add(v["what"])
            path = os.path.join(rdir, "%s-%d.json" % (prop, len(seen)))
            json.dump(dict(v["replay"], property=prop, what=v["what"], detail=v.get("detail")), open(path, "w"), indent=1)
            print("%s: %s %s" % (prop, v["what"], json.dumps(v.get("detail"))[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR %s" % e)
        return 2
    print("%s held: %s" % (prop, json.dumps(dict(res.counts))[:1500]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
