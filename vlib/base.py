"""What the parts of the checks have in common."""
import json, os, re, shutil, subprocess, threading, time
from collections import Counter

from .build import VERIF, go_env


class CheckError(Exception):
    """The check could not be done: neither held nor violated."""


class Crashed(CheckError):
    """ferryd's own code ended the process that the harness runs it in."""

    def __init__(self, what, output):
        super().__init__("ferryd's code crashed: %s\n%s" % (what, output[-4000:]))
        self.what = what


def crash(out):
    """What a process died of, if it was of something that ferryd's code did."""
    m = re.search(r"^(panic: .*|fatal error: .*|unexpected fault address.*)$", out, re.M)
    if not m:
        return None
    rest = out[m.start():]
    g = rest.split("\ngoroutine ", 2)
    frames = re.findall(r"^\t\S*/src/(?:ferryd|ferryctl|libeopkg|libdb|libferry)/(\S+)\.go:\d+", g[1] if len(g) > 1 else rest, re.M)
    if not frames or frames[0].split("/")[-1].startswith("zz_"):
        return None
    return m.group(1)[:200]


class Result:
    def __init__(self):
        self.violations = []      # dicts: prop, what, replay
        self.counts = Counter()   # summed up over the parts
        self.samples = []
        self.distinct = set()
        self.notes = {}
        self.errors = []          # what kept it from deciding everything

    def add(self, other):
        self.violations += other.violations
        self.counts += other.counts
        self.samples += other.samples
        self.distinct |= other.distinct
        self.notes.update(other.notes)
        self.errors += other.errors


class Ctx:
    def __init__(self, work, binary, seed, tier, deadline):
        self.work, self.binary, self.seed, self.tier, self.deadline = work, binary, seed, tier, deadline
        self.lock = threading.Lock()
        self.n = 0

    def dir(self, name):
        with self.lock:
            self.n += 1
            d = os.path.join(self.work, "%s-%d" % (name, self.n))
        os.makedirs(d)
        return d


def harness(ctx, mode, d, timeout=600, **env):
    """Runs the real code; returns (exit status, output)."""
    e = go_env()
    e.update(VERIF_MODE=mode, VERIF_SCRATCH=os.path.join(d, "scratch"), GOMAXPROCS="3")
    e.update({k: str(v) for k, v in env.items()})
    os.makedirs(e["VERIF_SCRATCH"], exist_ok=True)
    try:
        p = subprocess.run([ctx.binary, "-test.run", "^TestVerif$", "-test.timeout", "%ds" % timeout], env=e, cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 30)
    except subprocess.TimeoutExpired:
        raise CheckError("the harness did not finish (%s)" % mode)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def run_harness(ctx, mode, d, timeout=600, **env):
    rc, out = harness(ctx, mode, d, timeout, **env)
    if rc != 0:
        if crash(out):
            raise Crashed(crash(out), out)
        raise CheckError("the harness failed (%s):\n%s" % (mode, out[-5000:]))
    return out


def jsonl(path):
    ret = []
    with open(path) as f:
        for l in f:
            try:
                ret.append(json.loads(l))
            except ValueError:
                break      # the last line of a run that was cut off
    return ret


def rm(d):
    shutil.rmtree(d, ignore_errors=True)
