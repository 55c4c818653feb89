"""Running TLC."""
import json, os, re, shutil, subprocess

from .build import VERIF

SPEC = os.path.join(VERIF, "spec")


class TLCError(Exception):
    pass


def tlc(module, cfg, work, args=(), env=None, timeout=600, heap="2g", workers="1", cwd=None):
    """Runs TLC on spec/<module>.tla; returns its output. Raises unless it finished."""
    e = dict(os.environ)
    e["LC_ALL"] = "C.UTF-8"
    meta = os.path.join(work, "tlc-%s-%d" % (module, os.getpid()))
    n = 0
    while os.path.exists(meta + "-%d" % n):
        n += 1
    meta += "-%d" % n
    os.makedirs(os.path.join(meta, "tmp"))
    e["JAVA_TOOL_OPTIONS"] = "-Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8 -Dsun.stdout.encoding=UTF-8 -Djava.io.tmpdir=%s -Xmx%s" % (os.path.join(meta, "tmp"), heap)
    e.update(env or {})
    d = os.path.join(meta, "spec")
    shutil.copytree(SPEC, d)
    cmd = ["tlc", "-metadir", os.path.join(meta, "m"), "-workers", str(workers), "-config", cfg] + list(args) + [module + ".tla"]
    p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode("utf-8", "replace")
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out


def printed(out, tag):
    """What PrintT(tag \\o json) printed."""
    ret = []
    for l in out.splitlines():
        l = l.strip()
        if l.startswith('"' + tag + " "):
            s = json.loads(l) if False else unquote(l)
            ret.append(s[len(tag) + 1:])
    return ret


def unquote(l):
    # TLC prints strings with \" and \\ escaped
    assert l[0] == '"' and l[-1] == '"', l
    return re.sub(r'\\(.)', lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m.group(1), m.group(1)), l[1:-1])
