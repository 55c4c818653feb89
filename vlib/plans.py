"""Which parts decide which property, and what the evidence says of it."""
import itertools, json, os, random

from .base import VERIF
from .parts import core as _core, bucket as _bucket, queue as _queue, index as _index, escape as _escape, delta as _delta, crash as _crash, lock as _lock, daemon as _daemon, ctl as _ctl, meta as _meta

QUICK = 60       # seconds after which a quick check starts nothing new
THOROUGH = 900

PARTS = {"core": _core.core, "mc": _core.mc, "bucket": _bucket.bucket, "queue": _queue.queue, "index": _index.index, "escape": _escape.escape, "delta": _delta.delta, "crash": _crash.crash, "lock": _lock.lock, "daemon": _daemon.daemon, "names": _daemon.names, "ctl": _ctl.ctl, "meta": _meta.meta, "modelcheck": _core.modelcheck}


def run(part, ctx, **args):
    return PARTS[part](ctx, **args)


# property -> profiles of behaviours, models explored exhaustively
CORE = {
    "C01": ("mix move trim delta twins cross upload life clone pull", "move delta"),
    "C02": ("mix move delta life clone trim", "move delta"),
    "C03": ("trim mix sources pull upload", "ties"),
    "C04": ("index mix delta obs trim", "delta obs"),
    "C06": ("mix move life clone pull sources", "move"),
    "C07": ("clone stale life delta mix", "move delta"),
    "C08": ("pull move mix", "ties"),
    "C09": ("sources move mix", "move"),
    "C10": ("trim mix delta", "ties"),
    "C11": ("obs trim mix", "obs"),
    "C12": ("upload hostile mix", "upload"),
    "C17": ("delta twins cross clone trim", "delta"),
    "C22": ("hostile torn upload life", "upload"),
    "C24": ("life mix clone", "upload move"),
}
LINKS = ["", "copy", "mixed"]


def core_tasks(prop, seed, n, num, depth):
    profiles = CORE[prop][0].split()
    for k in range(n):
        yield ("core", dict(profile=profiles[k % len(profiles)], seed=seed * 1000 + k * 7 + 1, num=num, depth=depth,
                            link=LINKS[(k // len(profiles) + k) % 3]))


def fail_tasks(prop, seed, thorough):
    """operations in which writes fail, as on a full disk"""
    profiles = CORE[prop][0].split()
    for k in itertools.count():
        yield ("crash", dict(profile=profiles[(k * 2 + seed) % len(profiles)], seed=seed * 1000 + k * 7 + 8, num=6, depth=30, points=0,
                             fails=12 if not thorough else 20, link=LINKS[k % 3]))


def daemon_tasks(seed, n, num, depth, thorough, more):
    for k in itertools.count():
        if k >= n and not (thorough and more()):
            return
        yield ("daemon", dict(seed=seed * 1000 + k * 7 + 6, num=num, depth=depth, link=LINKS[k % 3]))


def tasks(prop, seed, tier, more):
    thorough = tier == "thorough"
    if prop == "C22":
        yield from daemon_tasks(seed + 500, 4, 8, 40, thorough, lambda: False)
    if prop in CORE:
        for c in CORE[prop][1].split():
            yield ("mc", dict(config=c))
        fails = fail_tasks(prop, seed, thorough) if prop in ("C01", "C02", "C03", "C06") else iter(())
        if not thorough:
            yield from core_tasks(prop, seed, 18 if prop in ("C01", "C02", "C03", "C06") else 24, 12, 30)
            yield from itertools.islice(fails, 4)
        else:
            for t in core_tasks(prop, seed, 10 ** 6, 20, 50):
                if not more():
                    return
                yield t
                yield from itertools.islice(fails, 1)


    elif prop == "C19":
        yield ("modelcheck", dict(module="BucketMC", cfg="BucketMC_deep.cfg" if thorough else "BucketMC_plain.cfg"))
        yield ("modelcheck", dict(module="BucketMC", cfg="BucketMC_alias.cfg", expect="Invariant Agree is violated"))
        for k in range(20 if not thorough else 10 ** 6):
            if thorough and not more():
                return
            yield ("bucket", dict(profile="dash" if k % 4 == 3 else "plain", seed=seed * 1000 + k, num=12, depth=40))
    elif prop == "C21":
        yield ("modelcheck", dict(module="EscapeMC", cfg="EscapeMC_deep.cfg" if thorough else "EscapeMC_plain.cfg"))
        yield ("modelcheck", dict(module="EscapeMC", cfg="EscapeMC_drop.cfg", expect="Invariant Independent is violated"))
        yield ("escape", dict(kind="short"))
        for k in range(4):
            yield ("core", dict(profile="bigtext", seed=seed * 1000 + k * 7 + 3, num=5, depth=20, link=LINKS[k % 3]))
        for k in range(4):
            yield ("escape", dict(kind="points", share=k, shares=4))
        for k in range(8):
            yield ("escape", dict(kind="four", share=k, shares=8))
        for k in range(8 if not thorough else 10 ** 6):
            if thorough and not more():
                return
            yield ("escape", dict(kind="long", seed=seed * 1000 + k))
            if thorough and k % 4 == 0:
                yield ("core", dict(profile="bigtext", seed=seed * 1000 + k * 7 + 103, num=5, depth=20, link=LINKS[k % 3]))
    elif prop == "C16":
        yield ("modelcheck", dict(module="DeltaMC", cfg="DeltaMC_deep.cfg" if thorough else "DeltaMC_small.cfg"))
        yield ("modelcheck", dict(module="DeltaMC", cfg="DeltaMC_inplace.cfg", expect="Invariant NoPart is violated"))
        for k in range(12 if not thorough else 10 ** 6):
            if thorough and not more():
                return
            yield ("delta", dict(seed=seed * 1000 + k, num=80 if not thorough else 150))
            if k % 3 == 0:
                yield ("core", dict(profile="delta", seed=seed * 1000 + k * 7 + 2, num=8, depth=30, link=LINKS[k // 3 % 3]))
    elif prop == "C18":
        yield ("modelcheck", dict(module="FerryCrash", cfg="FerryCrash_deep.cfg" if thorough else "FerryCrash_safe.cfg"))
        for c, what in (("split", "Exact"), ("record", "Repaired"), ("create", "Repaired"), ("clone", "Repaired"), ("rem", "Repaired"), ("upload", "Repaired")):
            yield ("modelcheck", dict(module="FerryCrash", cfg="FerryCrash_%s.cfg" % c, expect="Invariant %s is violated" % what))
        profiles = "mix trim delta upload move obs clone pull sources life".split()
        for k in range(14 if not thorough else 10 ** 6):
            if thorough and not more():
                return
            yield ("crash", dict(profile=profiles[k % len(profiles)], seed=seed * 1000 + k * 7 + 4, num=6 if not thorough else 12,
                                 depth=30 if not thorough else 45, points=10 if not thorough else 24, link=LINKS[(k // len(profiles) + k) % 3]))
    elif prop == "C23":
        yield ("modelcheck", dict(module="DaemonMC", cfg="DaemonMC_deep.cfg" if thorough else "DaemonMC_safe.cfg", workers=4 if thorough else 2, heap="6g"))
        yield ("modelcheck", dict(module="DaemonMC", cfg="DaemonMC_cut.cfg"))
        yield ("modelcheck", dict(module="DaemonMC", cfg="DaemonMC_reset.cfg"))
        yield ("modelcheck", dict(module="DaemonMC", cfg="DaemonMC_live.cfg"))
        yield ("modelcheck", dict(module="DaemonMC", cfg="DaemonMC_lifo.cfg", expect="Invariant Ordered is violated"))
        yield ("modelcheck", dict(module="ClientPath", cfg="ClientPath_deep.cfg" if thorough else "ClientPath_safe.cfg"))
        yield ("modelcheck", dict(module="ClientPath", cfg="ClientPath_raw.cfg", expect="Invariant Exact is violated"))
        if thorough:
            for k in range(8):
                yield ("names", dict(length=4, share=k, shares=8))
        else:
            yield ("names", dict(length=2))
            for k in range(2):
                yield ("names", dict(length=3, share=k * 2 + seed % 2, shares=4))
        yield from daemon_tasks(seed, 16, 8, 40, thorough, more)
    elif prop == "C25":
        yield ("modelcheck", dict(module="CommandLineMC", cfg="CommandLineMC_deep.cfg" if thorough else "CommandLineMC_safe.cfg", workers=4))
        for k in range(7 if not thorough else 10 ** 6):
            if thorough and not more():
                return
            yield ("ctl", dict(seed=seed * 1000 + k, num=8 if not thorough else 14))
    elif prop == "C26":
        yield ("modelcheck", dict(module="PackageMC", cfg="PackageMC_deep.cfg" if thorough else "PackageMC_safe.cfg", workers=4))
        for c in ("attribute", "untrimmed", "first", "reversed", "again"):
            yield ("modelcheck", dict(module="PackageMC", cfg="PackageMC_%s.cfg" % c, expect="Invariant Unchanged is violated"))
        for k in range(24 if not thorough else 10 ** 6):
            if thorough and not more():
                return
            yield ("meta", dict(seed=seed * 1000 + k, packages=[6, 10, 14][k % 3], depth=24 if not thorough else 40, link=LINKS[k % 3]))
    elif prop == "C20":
        yield ("modelcheck", dict(module="LockFile", cfg="LockFile_deep.cfg" if thorough else "LockFile_safe.cfg", workers=4 if thorough else 2, heap="6g"))
        for c in ("blind", "late", "early", "pid"):
            yield ("modelcheck", dict(module="LockFile", cfg="LockFile_%s.cfg" % c, expect="Invariant AtMostOne is violated"))
        for k in range(16 if not thorough else 10 ** 6):
            if thorough and not more():
                return
            yield ("lock", dict(seed=seed * 1000 + k, num=14, depth=[25, 40, 60][k % 3]))
    elif prop == "C05":
        yield ("modelcheck", dict(module="IndexPublish", cfg="IndexPublish_deep.cfg" if thorough else "IndexPublish_safe.cfg"))
        yield ("modelcheck", dict(module="IndexPublish", cfg="IndexPublish_livedeep.cfg" if thorough else "IndexPublish_live.cfg"))
        yield ("modelcheck", dict(module="IndexPublish", cfg="IndexPublish_stuck.cfg", expect="Robust is violated"))
        yield ("modelcheck", dict(module="IndexPublish", cfg="IndexPublish_early.cfg", expect="PreparedFirst"))
        for k in range(3):
            yield ("index", dict(seed=seed + k, sweep=["crash", k, 3]))
            yield ("index", dict(seed=seed + 7 + k, sweep=["fail", k, 3]))
        yield ("index", dict(seed=seed, sweep=["full", 0, 2]))
        for k in range(8 if not thorough else 10 ** 6):
            if thorough and not more():
                return
            yield ("index", dict(seed=seed * 1000 + k, num=10, depth=14))
            if k % 4 == 0:
                yield ("core", dict(profile="index", seed=seed * 1000 + k * 7 + 5, num=12, depth=30, link=LINKS[k % 3]))
            if thorough:
                yield ("index", dict(seed=seed * 1000 + k, sweep=[["crash", "fail", "full"][k % 3], 0, 1]))
    elif prop in QUEUE:
        profile = QUEUE[prop]
        yield ("modelcheck", dict(module="JobQueueMC", cfg="JobQueueMC_deep.cfg" if thorough else "JobQueueMC_safe.cfg"))
        yield ("modelcheck", dict(module="JobQueueMC", cfg="JobQueueMC_live.cfg"))
        for k in range(16 if not thorough else 10 ** 6):
            if thorough and not more():
                return
            yield ("queue", dict(profile="auto" if k % 3 == 2 else profile, prop=prop, seed=seed * 1000 + k, num=16, depth=35 if k % 3 < 2 else 25))


QUEUE = {"C13": "order", "C14": "crash", "C15": "hist"}
LEVELS = {}


def evidence(prop, tier, seed, res, violations, wall):
    c = res.counts
    cov = dict(states=c["mc states"], transitions=c["mc transitions"], traces_validated_against_impl=c["traces"],
               samples=res.samples[:3], steps_validated=c["steps"], distinct_successful_steps=len(res.distinct),
               operations={k[3:]: v for k, v in sorted(c.items()) if k.startswith("op ")},
               counters={k: v for k, v in sorted(c.items()) if not k.startswith(("op ", "mc "))}, models=res.notes)
    e = dict(property=prop, tier=tier, seed=seed, level=LEVELS.get(prop, "model_checking"), coverage=cov, wall_s=round(wall, 1), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    s = json.dumps(e, indent=1, ensure_ascii=False)
    while len(s.encode()) > 60000 and len(cov["samples"]) > 0:
        cov["samples"] = cov["samples"][:-1]
        s = json.dumps(e, indent=1, ensure_ascii=False)
    open(os.path.join(VERIF, "evidence", prop + ".json"), "w").write(s)


_CORE_NOTE = ("Holds for every behaviour of the specification over the small universes explored completely by TLC, and for every step of the "
              "recorded executions of the real code, each validated by TLC in full state (database, pool and repository trees, index) against the "
              "specification. Trusted: the recorder (harness/pkgmain), TLC, xz and zstd.")
_CORE_TECH = "TLA+ specification (FerryCore): TLC exhaustive model checking, TLC-simulated behaviours replayed on the real code, recorded traces validated by TLC"
CLAIMS = {p: (_CORE_TECH, _CORE_NOTE) for p in CORE}
CLAIMS["C19"] = ("TLA+ specification (BucketStore): TLC exhaustive model checking, TLC-simulated behaviours replayed on libdb, recorded traces validated by TLC",
                 "Holds for every behaviour of the specification over the small universes explored completely by TLC, and for every step of the recorded "
                 "executions of the real store, with awkward names and keys, reopening and crashes. Paths and keys that join to the same flat key are the known finding bucket-alias.")
CLAIMS["C05"] = ("TLA+ specification (IndexPublish refining IndexView): TLC exhaustive model checking with liveness; every failing step and crash point of real index runs, "
                 "and TLC-simulated histories of them, recorded at each file-system, database and compressor step and validated by TLC",
                 "Holds for every behaviour of the specification within its bounds (crashes, faults, all orders of the nine files), and for each single fault and crash point of the "
                 "recorded real runs, with everything visible observed at each point. Trusted: the recorder, rename(2) being atomic, xz and zstd. Process crashes, not power loss.")
CLAIMS["C21"] = ("TLA+ specification (EscapeStream): TLC exhaustive model checking over all short byte strings and their divisions, byte strings written to the real writer "
                 "in all kinds of pieces and checked by TLC, and long texts read back from real indexes",
                 "Holds for all strings of up to 4 (deep: 5) bytes of a 12-letter alphabet in the model, for all of up to 4 and sampled longer ones and all assigned characters in the real writer, "
                 "and for the recorded indexes. Unassigned characters and U+FFFD are left out, as versions of Unicode differ on them. Trusted: Python's character classes.")
CLAIMS["C16"] = ("TLA+ specification (DeltaPackage): TLC exhaustive model checking of its production, TLC-generated pairs of packages given to the real producer, "
                 "some with a failing step, and what came of it checked by TLC; deltas made by jobs likewise",
                 "Holds for every pair of small packages in the model (the delta reconstructs and has nothing extra, at every failing step), and for the generated pairs in the real "
                 "producer: moves, copies, links, directories, odd names, attributes. Trusted: the reader of the produced deltas (Go's zip and tar, xz).")
CLAIMS["C18"] = ("TLA+ specification (FerryCrash, FerryCore): TLC exhaustive model checking of jobs cut off between any two steps, jobs of TLC-simulated behaviours cut off "
                 "in the real code at the points where something has changed and run again, recorded states validated by TLC",
                 "Holds for every behaviour of the step-by-step model within its bounds (every crash point, also of the re-run), and for the recorded crashes of the real jobs: the state "
                 "that is left and the one after the re-run, in full. Jobs that are refused when they are run again are the known findings crash-create, -clone, -upload, -remove, -delta. "
                 "Trusted: the recorder, goleveldb writing a batch atomically. Process crashes, not power loss.")
CLAIMS["C20"] = ("TLA+ specification (LockFile): TLC exhaustive model checking with liveness of daemons started, stopped and killed between any two system calls, "
                 "TLC-simulated schedules followed by real ferryd processes held at these calls, what they did checked by TLC",
                 "Holds for every interleaving of 3 (deep: 4) daemons with up to 4 (6) starts in the model, and for the sampled schedules of real processes (the main program itself, real signals), "
                 "with various leftovers. Trusted: flock(2) being released when a process ends, the recorder. One host, one local file system.")
CLAIMS["C23"] = ("TLA+ specifications (Daemon over FerryCore, ClientPath): TLC exhaustive model checking with liveness; TLC-simulated sessions of clients with the real daemon "
                 "over its socket, status, listings and complete state at each point validated by TLC",
                 "Holds for every behaviour of the specification over a small universe, for every name of up to 3 (deep: 5) characters that matter in a URL, and for every recorded session: "
                 "requests one by one and at once, uploads, malformed requests, resets, restarts, with jobs held up while others queue. Jobs are told apart by their descriptions and by what "
                 "they do. Trusted: the recorder. Arguments are valid UTF-8.")
CLAIMS["C25"] = ("TLA+ specification (CommandLine): TLC exhaustive model checking, TLC-generated command lines given to the real ferryctl with a real daemon, what it queued and showed checked by TLC",
                 "Holds for every command line of up to 4 (deep: 5) words that matter and every directory of up to 3 nodes in the model, and for the generated command lines of the real client: "
                 "odd names and numbers, flags, directories to import from, with histories and queues of many sizes, and without a daemon. Trusted: the recorder.")
CLAIMS["C26"] = ("TLA+ specification (PackageView): TLC exhaustive model checking, documents generated by TLC from the schemas, written in many ways and given to the real code, "
                 "what its indexes say compared with them by TLC",
                 "Holds for every document of up to 2 elements of each kind in the model on every way of 3 steps, and for the generated documents (every element and attribute there is, odd texts, "
                 "odd spellings) on the ways that packages take: imports, uploads, clones, pulls, copies, restarts. Trusted: expat, the comparison of strings. Elements that exist once are not repeated.")
for p in QUEUE:
    CLAIMS[p] = ("TLA+ specification (JobQueue): TLC exhaustive model checking with liveness, TLC-simulated behaviours run on the real job store and workers "
                 "with operations held at their database points and crashes there, recorded concurrent histories explained by TLC",
                 "Holds for every behaviour of the specification within the small bounds explored completely, and every recorded history of the real store and "
                 "workers is a behaviour of it (linearizability search by TLC). Trusted: the recorder, goleveldb writing a batch atomically.")
NOT_CLAIMED = {}
