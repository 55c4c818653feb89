#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from tools/seeds/<id>.py and confirms each in a
scratch copy of /repo: builds, passes the tests, its demonstration fails with
the change and passes without.   mkseeds.py [ID...] [--check]
With --check, runs the property's check against the changed copy as well."""
import json, os, shutil, subprocess, sys, tempfile, textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.build import go_env

DEMO = r'''#!/bin/bash
# Runs the demonstration beside this file in package PKG of the tree it is started in.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
export GOPATH=/root/go GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
{
	echo '{"Replace":{'
	sep=""
	for f in "$here"/*.go; do
		printf '%s"%s":"%s"' "$sep" "$PWD/PKG/zz_$(basename "$f" .go)_test.go" "$f"
		sep=","
	done
	echo '}}'
} > "$tmp/overlay.json"
mkdir "$tmp/t"
TMPDIR="$tmp/t" timeout 250 go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestSeededDemo$' "./PKG"
'''


def sh(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def tests(repo):
    rc, out = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], repo, go_env())
    ok = set()
    for l in out.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("Action") == "pass" and j.get("Test"):
            ok.add((j["Package"], j["Test"]))
    for d in ("src/ferryd/core/testenv", "src/libeopkg/TESTING"):
        shutil.rmtree(os.path.join(repo, d), ignore_errors=True)
    return ok


def make(ident, check):
    ns = {}
    exec(open(os.path.join(V, "tools", "seeds", ident + ".py")).read(), ns)
    out = os.path.join(V, "seeded", ident)
    tmp = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(tmp, "repo")
    try:
        sh(["git", "clone", "-q", os.environ.get("SEED_REPO", "/repo"), repo], "/")
        base = tests(repo)
        for f, old, new in ns["EDITS"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (ident, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        rc, o = sh(["gofmt", "-l", "src"], repo, go_env())
        o = "\n".join(l for l in o.split() if l not in ("src/libeopkg/metadata.go", "src/libeopkg/package.go"))
        if o.strip():
            print(ident, "not formatted:", o.strip())
        rc, diff = sh(["git", "diff"], repo)
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(out):
            os.remove(os.path.join(out, f))
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        for name, text in ns["DEMO"].items():
            open(os.path.join(out, name), "w").write(text)
        if ns.get("COMMON", True) and ns["PKG"].endswith("core"):
            shutil.copy(os.path.join(V, "tools", "seeds", "common_core.go.txt"), os.path.join(out, "common.go"))
        open(os.path.join(out, "demo.sh"), "w").write(ns.get("SCRIPT") or DEMO.replace("PKG", ns["PKG"]))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc, o = sh(["go", "build", "./..."], repo, go_env())
        if rc:
            print(ident, "DOES NOT BUILD", o[-1500:])
            return False
        t = tests(repo)
        if not base <= t:
            print(ident, "TESTS FAIL", base - t)
            return False
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], repo)
        if rc == 0 or "FAIL" not in o or "build failed" in o:
            print(ident, "DEMO DOES NOT FAIL with the change (%d)" % rc, o[-2500:])
            return False
        bad = o
        sh(["git", "stash"], repo)
        for k in range(2):
            rc, o = sh(["bash", os.path.join(out, "demo.sh")], repo)
            if rc:
                print(ident, "DEMO FAILS WITHOUT the change", o[-2500:])
                return False
        sh(["git", "stash", "pop"], repo)
        print(ident, "ok:", [l for l in bad.splitlines() if "_test.go" in l][:1])
        if check:
            for p in ([ns["PROPERTY"]] if check is True else check.split(",")):
                e = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
                rc, o = sh([sys.executable, os.path.join(V, "check.py"), p], V, e, 1200)
                print(ident, "check", p, "exit", rc, "CAUGHT" if rc == 1 and "VIOLATION property=%s" % p in o else "MISSED", o[:500] if rc != 1 else o[:300])
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = None
    for a in sys.argv[1:]:
        if a.startswith("--check"):
            check = a.split("=")[1] if "=" in a else True
    ids = args or sorted(f[:-3] for f in os.listdir(os.path.join(V, "tools", "seeds")) if f.endswith(".py"))
    for i in ids:
        make(i, check)
