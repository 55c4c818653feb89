"""What packages, distributions, components and groups say of themselves: TLC
generates documents (PackageSim), they are written in all kinds of ways and
given to the real code, and what the indexes then say is compared with the
documents by TLC (PackageTrace)."""
import json, os, random, re, sys
import xml.etree.ElementTree as ET
import xml.parsers.expat

from ..base import *
from ..tlc import tlc, printed
from .core import tail

sys.path.insert(0, os.path.join(VERIF, "tools"))
import mkuni

TEXTS = ["plain text", "a & b < c > d", "quotes \" and '", "sym © ™ → ∑ €", "emoji 😀🎉", "line one\nline two", "tab\there", "ünïcödé", "日本語テキスト",
         "nbsp\u00a0here", "zero\u200bwidth", "end ]]> of cdata", "\u2028sep", "math 𝒳 ≤ ½", "ctl\u0085x", "x" * 5000, "&amp; literal", "%s %d \\n",
         "carriage\rreturn", "cr\r\nlf", "<b>not markup</b>", "<!-- no comment -->", "&#x41;", "0", "0.0", "true", "en", " lead", "trail ", "  both  ",
         "\ttab\n", " ", "é" * 1500, "a\ufffdb", "\ue000private", "\U0010fffdlast", "؀ arabic", "e\u0301 combining", "\u202eright", "NULL", "-", "a,b;c", "'", "\"", "]]", "$HOME `x`"]
PADS = {"": "", "p1": " ", "p2": "\n\t\t", "p3": "  \n", "p4": "\u00a0\t"}
IDENTS = ["1", "1.0", "2.7.1-x", "1:2", "x86_64", "ünï", "a b", "1&2", "<1>", "v1~rc", "..", "9" * 30, "日本", "a'b\"c", "%2e"]
SOURCES = ["nano", "lib", "libx", "libxml2", "Foo", "a", "python3", "x y", "kernel-headers", "C&A", "l<b>", "..x", "zlib"]
NODE = ["", "", ""]


def subst(n, r, name):
    """The real document for one with names of texts"""
    def real(v):
        if v == "@name":
            return name
        if v == "@source":
            return r.choice(SOURCES)
        if v == "@ident":
            return r.choice(IDENTS)
        if v.startswith("@gone"):
            return v[1:] if v != "@gone1" else "pkg0"
        if v[:1] == "t" and v[1:].isdigit():
            return TEXTS[int(v[1:]) - 1]
        return v
    x = [PADS[n["x"][0]], real(n["x"][1]), PADS[n["x"][2]]] if n["x"][0] in PADS else n["x"]
    return dict(t=n["t"], a=[[k, real(v)] for k, v in n["a"] if v != ""], x=split("".join(x)), k=[subst(c, r, name) for c in n["k"]])


def split(s):
    core = s.strip()   # as Unicode has it, and so does Go
    if not core:
        return [s, "", ""]
    at = s.index(core)
    return [s[:at], core, s[at + len(core):]]


# ---- writing ----

def esc_text(s, r):
    out = []
    how = r.random()
    for c in s:
        if c in "&<>":
            out.append({"&": r.choice(["&amp;", "&#38;", "&#x26;"]), "<": "&lt;", ">": "&gt;"}[c])
        elif c == "\r":
            out.append("&#13;")
        elif ord(c) > 126 and how < 0.3:
            out.append("&#%d;" % ord(c) if r.random() < 0.5 else "&#x%x;" % ord(c))
        elif how < 0.1 and c.isalnum():
            out.append("&#x%X;" % ord(c))
        elif c in "\"'" and how < 0.5:
            out.append({"\"": "&quot;", "'": "&apos;"}[c])
        else:
            out.append(c)
    return out


def text(s, r):
    if not s:
        return ""
    if len(s) < 1000 and r.random() < 0.25 and "\r" not in s:
        return "<![CDATA[" + s.replace("]]>", "]]]]><![CDATA[>") + "]]>"
    cs = esc_text(s, r)
    if r.random() < 0.15:
        cs.insert(r.randint(0, len(cs)), r.choice(["<!-- between -->", "<?pi x?>", "<![CDATA[]]>"]))
    return "".join(cs)


def attr(k, v, r):
    q = r.choice("\"'")
    s = "".join({"&": "&amp;", "<": "&lt;", ">": "&gt;", "\n": "&#10;", "\r": "&#13;", "\t": "&#9;", q: "&quot;" if q == '"' else "&apos;"}.get(c, c) for c in v)
    return "%s%s=%s%s%s" % (r.choice([" ", "  ", "\n "]), k, q, s, q)


def filler(r):
    return r.choice(["", "", "", "\n    ", "\n\t", " ", "<!-- a comment: <Name>no</Name> -->", "\n<Unknown><Name>no</Name><Summary>no</Summary><Source/></Unknown>", "<X/>"])


def write(n, r):
    ats = [attr(k, v, r) for k, v in n["a"]]
    if r.random() < 0.1:
        ats.append(attr("unknown", "x", r))
    r.shuffle(ats)
    body = ""
    if n["k"] or n.get("node"):
        kids = list(n["k"])
        if r.random() < 0.5:   # the order of different ones does not matter
            tags = [c["t"] for c in kids]
            r.shuffle(tags)
            by = {}
            for c in kids:
                by.setdefault(c["t"], []).append(c)
            kids = [by[t].pop(0) for t in tags]
        body = "".join(filler(r) + write(c, r) for c in kids) + filler(r)
    else:
        body = text("".join(n["x"]), r)
    if not body and r.random() < 0.5:
        return "<%s%s/>" % (n["t"], "".join(ats))
    return "<%s%s>%s</%s%s>" % (n["t"], "".join(ats), body, n["t"], r.choice(["", "", " "]))


def document(root, nodes, r):
    head = r.choice(["", "", '<?xml version="1.0" encoding="UTF-8"?>\n', '<?xml version="1.0"?><!DOCTYPE PISI>\n', "<!-- hello -->\n", '<?xml version="1.0" encoding="utf-8" standalone="yes"?>'])
    return head + "<PISI>" + filler(r) + "".join(write(n, r) + filler(r) for n in nodes) + "</PISI>" + r.choice(["", "\n", "<!-- end -->"])


# ---- reading ----

def tree(e):
    def key(k):
        return "xml:lang" if k == "{http://www.w3.org/XML/1998/namespace}lang" else k.split("}")[-1]
    return dict(t=e.tag.split("}")[-1], a=[[key(k), v] for k, v in e.attrib.items()], x=split(e.text or "") if len(e) == 0 else NODE, k=[tree(c) for c in e])


def meta(ctx, seed, packages=10, assets=6, depth=24, link=""):
    d = ctx.dir("meta")
    rc, out = tlc("PackageSim", "PackageSim.cfg", d, ["-simulate", "num=1", "-depth", str(packages + 3 * assets + depth + 2), "-seed", str(seed)],
                  env=dict(PACKAGES=str(packages), ASSETS=str(assets), TEXTS=str(len(TEXTS)), DEPTH=str(depth)), heap="1g")
    docs = [json.loads(x) for x in printed(out, "DOC")]
    ways = [json.loads(x) for x in printed(out, "OP")]
    if len(docs) != packages + 3 * assets or len(ways) != depth:
        raise CheckError("TLC generated no documents:\n" + tail(out))
    uni = os.path.join(d, "uni")
    os.makedirs(os.path.join(uni, "assets"))
    r = random.Random("meta %d" % seed)
    U = dict(files={}, bysha={}, dist={}, comps={}, groups={})
    means = {}
    for k, doc in enumerate(docs):
        w = random.Random(doc["spelling"])
        if doc["kind"] == "package":
            name = "pkg%d" % k
            n = subst(doc["nodes"][0], r, name)
            src = [c for c in n["k"] if c["t"] == "Source"][0]
            src = [c for c in src["k"] if c["t"] == "Name"][0]["x"]
            rel = int([a for a in [c for c in n["k"] if c["t"] == "History"][0]["k"][0]["a"] if a[0] == "release"][0][1])
            outer = [dict(t="Source", a=[], x=NODE, k=[dict(t="Name", a=[], x=["", "other", ""], k=[])])] if w.random() < 0.7 else []
            fid, path = "f%d" % k, os.path.join(uni, "pk", "%s-%d.eopkg" % (name, k))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            root = ([n] + outer) if w.random() < 0.2 else (outer + [n])
            members = [("metadata.xml", document("PISI", root, w)), ("files.xml", "<Files></Files>")]
            w.shuffle(members)
            mkuni.write_zip(path, members)
            U["files"][fid] = dict(kind="pkg", id=os.path.basename(path), name=name, src="".join(src), srcl="".join(src).lower(), rel=rel, ver="", dist="", arch="",
                                   sha="c:" + fid, path=os.path.relpath(path, uni))
            U["bysha"]["c:" + fid] = dict(meta=fid, broken="", files={})
            means[os.path.basename(path)] = [n]
        else:
            nodes = [subst(n, r, "%s%s" % (r.choice("aBzÄ_1é"), j * 7 % 10)) for j, n in enumerate(doc["nodes"])]
            tok = "%s%d" % (doc["kind"], k)
            if doc["kind"] == "dist":
                s = document("PISI", nodes[0]["k"], w)
            else:
                tag = "Components" if doc["kind"] == "comps" else "Groups"
                s = document("PISI", [dict(t=tag, a=[], x=NODE, k=nodes, node=True)], w)
            open(os.path.join(uni, "assets", tok), "w", newline="").write(s)
            U[doc["kind"]][tok] = dict(bad=False, tok=tok)
            means[tok] = nodes
    json.dump(U, open(os.path.join(uni, "uni.json"), "w"))
    ops, has = plan(ways, U)
    with open(os.path.join(d, "in"), "w") as f:
        f.write(json.dumps(dict(run=0, link=link, ops=ops)) + "\n")
    trace = os.path.join(d, "out")
    run_harness(ctx, "meta", d, VERIF_UNI=uni, VERIF_IN=os.path.join(d, "in"), VERIF_OUT=trace)
    res = Result()
    replay = dict(part="meta", args=dict(seed=seed, packages=packages, assets=assets, depth=depth, link=link))
    pairs, seen = [], set()

    def bad(what, **detail):
        res.violations.append(dict(prop="C26", what="meta: " + what, detail=detail, replay=replay))

    for l in jsonl(trace):
        o = ops[l["op"]]
        res.counts["op " + o["op"] + ("" if l["ok"] else " refused")] += 1
        if not l["ok"] and o.get("fine"):
            bad("%s of well-formed documents is refused" % o["op"], op=o, err=l["err"])
        for x in l["indexes"]:
            res.counts["steps"] += 1
            try:
                root = ET.parse(x["file"]).getroot()
            except ET.ParseError as e:
                bad("the index is not well-formed", op=o, err=str(e))
                continue
            if not l["ok"]:
                continue
            listed = {}
            for p in root.findall("Package"):
                listed.setdefault(os.path.basename(p.findtext("PackageURI") or ""), []).append(tree(p))
            todo = [("package", i, ns) for i, ns in sorted(listed.items())]
            for kind, f, tag in (("dist", "distribution.xml", "Distribution"), ("comps", "components.xml", "Component"), ("groups", "groups.xml", "Group")):
                if f in x["assets"]:
                    todo.append((kind, x["assets"][f], [tree(e) for e in root.findall(tag)]))
            for kind, tok, ns in todo:
                if tok not in means:
                    bad("the index tells of something unknown", op=o, id=tok)
                    continue
                names = [("".join(c["x"]).encode()) for n in ns for c in n["k"] if c["t"] == "Name"]
                rank = [sum(1 for m in set(names) if m < y) for y in names] if kind in ("comps", "groups") else []
                p = dict(kind=kind, id=tok, src=means[tok], idx=ns, rank=rank)
                s = json.dumps(p, sort_keys=True)
                res.counts["meta " + kind] += 1
                if s not in seen:
                    seen.add(s)
                    p["op"] = l["op"]
                    pairs.append(p)
    if not pairs:
        raise CheckError("no index was written")
    pf = os.path.join(d, "pairs")
    with open(pf, "w") as f:
        for p in pairs:
            f.write(json.dumps(p) + "\n")
    rc, out = tlc("PackageTrace", "PackageTrace.cfg", d, env={"TRACE": pf}, heap="1500m")
    if not printed(out, "DONE"):
        raise CheckError("TLC did not compare the documents:\n" + tail(out))
    for x in printed(out, "VIOL"):
        v = json.loads(x)
        p = pairs[v["line"] - 1]
        bad(v["what"], id=p["id"], op=ops[p["op"]], idx=p["idx"][:1])
    res.counts["meta pairs"] += len(pairs)
    res.counts["traces"] += 1
    res.distinct.update("%s %s" % (p["kind"], ops[p["op"]]["op"]) for p in pairs)
    res.samples.append(dict(seed=seed, operations=ops[:8], document=docs[0]))
    rm(d)
    return res


def plan(ways, U):
    """Operations for the ways that TLC chose"""
    ops = [dict(op="create", repo="main", fine=True), dict(op="create", repo="other", fine=True)]
    has = {"main": set(), "other": set()}
    fids = sorted(U["files"], key=lambda f: int(f[1:]))
    for w in ways:
        k, n, m = w["op"], w["n"], w["m"]
        repos = sorted(has)
        repo, other = repos[n % len(repos)], repos[m % len(repos)]
        if k in ("import", "upload"):
            new = [f for f in fids if f not in has[repo]]
            if not new:
                continue
            fs = [new[(n // 7 + j) % len(new)] for j in range(min(len(new), 1 + m % 4))]
            if k == "import":
                ops.append(dict(op=k, repo=repo, files=fs, fine=True))
            else:
                ops.append(dict(op=k, man=dict(valid=True, variant=0, target=repo, name="up.tram",
                                               files=[dict(f=f, sum=True, suffix=True, local=True, there=True, name=U["files"][f]["id"]) for f in fs]), fine=True))
            has[repo] |= set(fs)
        elif k in ("clone", "clonefull"):
            t = "c%d" % len(ops)
            ops.append(dict(op="clone", repo=repo, target=t, full=k == "clonefull", fine=True))
            has[t] = set(has[repo])
        elif k == "pull":
            if repo == other:
                continue
            ops.append(dict(op="pull", repo=repo, target=other, fine=True))
            has[other] |= has[repo]
        elif k in ("copy", "remove"):
            if not has[repo]:
                continue
            src = U["files"][sorted(has[repo])[m % len(has[repo])]]["src"]
            fs = {f for f in has[repo] if U["files"][f]["src"] == src}
            if k == "remove":
                ops.append(dict(op="remove", repo=repo, source=src, rel=-1, fine=True))
                has[repo] -= fs
            elif repo != other:
                ops.append(dict(op="copy", repo=repo, target=other, source=src, rel=-1, skip=False))
                has[other] |= fs
        elif k == "trim":
            ops.append(dict(op="trim", repo=repo, keep=2))
        elif k == "assets":
            as_ = {}
            for f, kind, q in (("distribution.xml", "dist", n), ("components.xml", "comps", m), ("groups.xml", "groups", n // 10)):
                toks = sorted(U[kind])
                if q % (len(toks) + 1):
                    as_[f] = toks[q % (len(toks) + 1) - 1]
            ops += [dict(op="assets", repo=repo, assets=as_), dict(op="index", repo=repo, fine=True)]
        elif k == "index":
            ops.append(dict(op="index", repo=repo, fine=True))
        else:
            ops.append(dict(op=k))
    return ops, has
