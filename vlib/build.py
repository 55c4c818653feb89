"""Builds the test binary of /repo's working tree together with the harness."""
import json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def go_env():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED="0",
             GOPATH="/root/go", GOCACHE="/root/.cache/go-build")
    return e


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def build(work, race=False):
    """Returns the path of the test binary (package main of ferryd)."""
    env = go_env()
    H = os.path.join(VERIF, "harness")
    gen = os.path.join(work, "gen")
    os.makedirs(gen, exist_ok=True)
    instr = os.path.join(work, "instr")
    run(["go", "build", "-o", instr, os.path.join(H, "instr", "main.go")], env=env, cwd=H)
    replace = {}
    src = os.path.join(REPO, "src")

    def instrument(rel, *flags):
        d = os.path.join(src, rel)
        out = os.path.join(gen, rel.replace("/", "_"))
        run([instr, d, out] + list(flags), env=env)
        for f in os.listdir(out):
            replace[os.path.join(d, f)] = os.path.join(out, f)

    instrument("ferryd/core")
    instrument("libeopkg")
    instrument("ferryd/jobs", "-time")
    instrument("ferryd")
    instrument("libdb", "-rename", "Open=verifRealOpen")
    replace[os.path.join(src, "verifos", "verifos.go")] = os.path.join(H, "verifos", "verifos.go")
    for sub, rel in (("pkgmain", "ferryd"), ("pkglibdb", "libdb"), ("pkgjobs", "ferryd/jobs"), ("pkgcore", "ferryd/core")):
        d = os.path.join(H, sub)
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith(".go"):
                    replace[os.path.join(src, rel, f)] = os.path.join(d, f)
    # The repository's own tests have no part in this
    for rel in ("ferryd",):
        for f in os.listdir(os.path.join(src, rel)):
            if f.endswith("_test.go"):
                replace[os.path.join(src, rel, f)] = ""
    ov = os.path.join(work, "overlay.json")
    json.dump({"Replace": replace}, open(ov, "w"))
    out = os.path.join(work, "ferryd.test")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
        env["CGO_ENABLED"] = "1"
    run(cmd + ["./src/ferryd"], env=env, cwd=REPO)
    return out


def ferryctl(work):
    """Returns the path of the client's binary."""
    out = os.path.join(work, "ferryctl")
    if not os.path.exists(out):
        run(["go", "build", "-o", out, "./src/ferryctl"], env=go_env(), cwd=REPO)
    return out
