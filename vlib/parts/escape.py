"""Escaping of the index text: byte strings written in all kinds of pieces to
the real writer; what came out is checked by TLC (EscapeTrace)."""
import json, os, random, unicodedata

from ..base import *
from ..tlc import tlc, printed
from .core import tail

ALPHABET = [97, 160, 194, 192, 226, 134, 146, 237, 240, 159, 244, 255]


def escaped(cp):
    """Symbols, controls, private use, separators; beyond ASCII"""
    if cp < 128 or 0xD800 <= cp < 0xE000:
        return False
    c = unicodedata.category(chr(cp))
    return c[0] in "SZ" or c in ("Cc", "Cf", "Co")


def assigned():
    """Not those that another version of Unicode may know more of, nor U+FFFD,
    which stands for itself"""
    return [cp for cp in range(0x110000) if not 0xD800 <= cp < 0xE000 and cp != 0xFFFD and unicodedata.category(chr(cp)) != "Cn"]


def line(b):
    """The code points in it that become references"""
    esc = set()
    for i in range(len(b)):
        for w in (2, 3, 4):
            try:
                s = b[i:i + w].decode()
            except UnicodeDecodeError:
                continue
            if len(s) != 1 or ord(s) == 0xFFFD:
                continue
            if unicodedata.category(s) == "Cn":
                return None     # not everybody's Unicode says the same of it
            if escaped(ord(s)):
                esc.add(ord(s))
    return dict(b=list(b), esc=sorted(esc))


def words(n):
    if n == 0:
        yield b""
        return
    for w in words(n - 1):
        for c in ALPHABET:
            yield w + bytes([c])


def inputs(kind, seed, share, shares):
    rng = random.Random("%s/%s/%s" % (kind, seed, share))
    if kind == "short":           # every string of up to 3, of our bytes
        for n in range(4):
            yield from words(n)
    elif kind == "four":          # a share of those of 4
        for k, w in enumerate(words(4)):
            if k % shares == share:
                yield w
    elif kind == "points":        # a share of all characters, in runs
        a = assigned()
        if shares > 1:
            a = [cp for cp in a if (cp // 16) % shares == share % shares or cp < 0x2100 and cp % 2 == share % 2]
        for k in range(0, len(a), 40):
            yield "".join(map(chr, a[k:k + 40])).encode()
    else:                         # longer ones, with what is invalid in between
        chars = [chr(rng.choice([0x61, 0x7f, 0x80, 0xa0, 0xa9, 0xe9, 0x7ff, 0x800, 0x2028, 0x2192, 0xd7a3, 0xe000, 0xfffc, 0xffee, 0x10000, 0x1f642, 0x10ffff - 2])).encode() for _ in range(400)]
        for _ in range(600):
            parts = []
            for _ in range(rng.randint(2, 25)):
                c = rng.choice(chars)
                r = rng.random()
                if r < 0.15:
                    c = c[:rng.randint(0, len(c))]
                elif r < 0.3:
                    c = bytes([rng.randint(128, 255)])
                elif r < 0.35:
                    c = b"a" * rng.randint(1, 60)
                parts.append(c)
            yield b"".join(parts)


def escape(ctx, kind, seed=0, share=0, shares=1, script=None):
    d = ctx.dir("escape")
    ls = [script] if script else [l for l in (line(b) for b in inputs(kind, seed, share, shares)) if l]
    with open(os.path.join(d, "in"), "w") as f:
        for l in ls:
            f.write(json.dumps(l) + "\n")
    trace = os.path.join(d, "trace")
    run_harness(ctx, "escape", d, VERIF_IN=os.path.join(d, "in"), VERIF_OUT=trace)
    rc, out = tlc("EscapeTrace", "EscapeTrace.cfg", d, env={"TRACE": trace}, heap="1500m")
    if not printed(out, "DONE"):
        raise CheckError("TLC did not check the trace:\n" + tail(out))
    res = Result()
    lines = jsonl(trace)
    for x in printed(out, "VIOL"):
        at = lines[json.loads(x)["line"] - 1]
        res.violations.append(dict(prop="C21", what="escaping of %s text" % kind, detail=dict(text=repr(bytes(at["b"]))[:300], outs=[repr(bytes(x))[:300] for x in at["outs"][:4]], took=at["took"]),
                                   replay=dict(part="escape", args=dict(kind=kind, script=dict(b=at["b"], esc=at["esc"])))))
    for l in lines:
        res.counts["steps"] += l["n"]
        res.counts["op text written"] += 1
        res.counts["bytes of text"] += len(l["b"])
        if len(res.distinct) < 20000:
            res.distinct.add(bytes(l["b"]))
    res.counts["traces"] += len(lines)
    res.samples.append(dict(kind=kind, text=repr(bytes(lines[len(lines) // 2]["b"]))[:200], written_in_ways=lines[len(lines) // 2]["n"]))
    rm(d)
    return res
