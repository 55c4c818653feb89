#!/usr/bin/env python3
"""Builds a universe: the package files, asset files and names that ferryd can
be given in a run. Writes OUT/uni.json (read by the TLA+ modules and by the
recorder) and the files themselves. Deterministic in (profile, seed)."""
import hashlib, io, json, lzma, os, random, sys, tarfile, zipfile
from xml.sax.saxutils import escape

TEXTS = ["plain text", "a & b < c > d", "quotes \" and '", "sym © ™ → ∑ €", "emoji 😀🎉", "  padded   ",
         "line one\nline two", "tab\there", "ünïcödé", "日本語テキスト", "nbsp\u00a0here", "zero\u200bwidth",
         "end ]]> of cdata", "\u2028sep", "math 𝒳 ≤ ½", "ctl\u0085x", "x" * 3000, "&amp; literal", "%s %d \\n"]


def fhash(c):
    return hashlib.sha1(c.encode()).hexdigest()


def metadata(p, r, uni_name):
    def e(s):
        return escape(s)
    desc = p["text"]
    deps = "".join('<Dependency releaseFrom="%d">%s</Dependency>' % (d[1], e(d[0])) for d in p["deps"])
    prov = ""
    if p["prov"]:
        prov = '<Provides><PkgConfig>%s</PkgConfig><PkgConfig32>%s</PkgConfig32><COMAR script="x.py">%s</COMAR></Provides>' % (
            e(p["prov"]), e(p["prov"] + "32"), "System.Service")
    summary = "<Summary xml:lang=\"en\">%s</Summary>" % e("Summary " + p["meta"]) if p["sums"] > 0 else ""
    if p["sums"] > 1:
        summary += '<Summary xml:lang="de">%s</Summary>' % e(desc)
    if p["sums"] == 3:
        summary = "<Summary>%s</Summary>" % e(desc)
    hist = ""
    for i, rel in enumerate(p["hist"]):
        hist += '<Update release="%d"%s><Date>2018-0%d-01</Date><Version>%s</Version><Comment>%s</Comment><Name>%s</Name><Email>a@b.c</Email>%s</Update>' % (
            rel, ' type="security"' if i == 0 and p["sec"] else "", i % 9 + 1, e(p["ver"]), e(desc if i == 0 else "older"), e("Pat " + p["meta"]),
            '<Requires><Action package="%s">systemRestart</Action></Requires>' % e(p["name"]) if p["sec"] else "")
    return ('<PISI><Source><Name>%s</Name><Packager><Name>P</Name><Email>p@q</Email></Packager></Source>'
            '<Package><Name>%s</Name>%s<Description xml:lang="en">%s</Description>%s<PartOf>%s</PartOf><License>GPL-2.0</License><License>MIT &amp; x</License>'
            '%s<Conflicts><Package>other</Package></Conflicts><Replaces><Package>older</Package></Replaces>%s<History>%s</History>'
            '<BuildHost>bh</BuildHost><Distribution>Solus</Distribution><DistributionRelease>%s</DistributionRelease>'
            '<Architecture>%s</Architecture><InstalledSize>%d</InstalledSize><PackageFormat>1.2</PackageFormat>'
            '<Source><Name>%s</Name><Homepage>http://x/?a=1&amp;b=2</Homepage><Packager><Name>%s</Name><Email>p@q</Email></Packager></Source></Package></PISI>') % (
        e(p["src"]), e(p["name"]), summary, e("Token " + p["meta"] + " " + desc), "<IsA>app</IsA>" if p["sec"] else "", e("sys.base"),
        "<RuntimeDependencies>%s</RuntimeDependencies>" % deps if deps else "", prov, hist, e(p["dist"]), e(p["arch"]),
        p["inst"], e(p["src"]), e("Maint " + desc[:40]))


def files_xml(files):
    out = ["<Files>"]
    for path, c in sorted(files.items()):
        if c is None:
            out.append("<File><Path>%s</Path><Type>directory</Type><Uid>0</Uid><Gid>0</Gid><Mode>0755</Mode></File>" % escape(path))
        else:
            out.append("<File><Path>%s</Path><Type>data</Type><Size>%d</Size><Uid>0</Uid><Gid>0</Gid><Mode>0644</Mode><Hash>%s</Hash></File>"
                       % (escape(path), len(c), fhash(c)))
    return "".join(out) + "</Files>"


def tarball(files, damage=""):
    b = io.BytesIO()
    t = tarfile.open(fileobj=b, mode="w", format=tarfile.PAX_FORMAT)
    for path, c in sorted(files.items()):
        ti = tarfile.TarInfo(path)
        ti.mtime = 1500000000
        if c is None:
            ti.type = tarfile.DIRTYPE
            ti.mode = 0o755
            t.addfile(ti)
        else:
            ti.size = len(c.encode())
            ti.mode = 0o644
            t.addfile(ti, io.BytesIO(c.encode()))
    t.close()
    d = b.getvalue()
    last = max(m.offset_data for m in tarfile.open(fileobj=io.BytesIO(d)))      # where the data of the last one starts
    if damage == "header":
        d = d[: last - 512 + 100]
    elif damage == "data":
        d = d[: last + 1]
    elif damage == "sum":
        d = d[: last - 512 + 20] + b"?" + d[last - 512 + 21:]
    x = lzma.compress(d, preset=0)
    return {"stream": x[: len(x) // 2], "garbage": b"no archive", "empty": b""}.get(damage, x)


def write_zip(path, members):
    with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
        for n, d in members:
            zi = zipfile.ZipInfo(n, (2018, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_DEFLATED
            z.writestr(zi, d)


def build(path, p):
    k = p["kind"]
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if k == "missing":
        return
    if k == "fifo":
        os.mkfifo(path)
        return
    if k == "dir":
        os.makedirs(path)
        return
    if k == "garbage":
        open(path, "wb").write(b"this is not a zip file " + p["meta"].encode())
        return
    if k == "empty":
        open(path, "wb").close()
        return
    md = metadata(p, None, None)
    if k == "badxml":
        md = md[: len(md) // 2]
    if k == "entity":
        md = md.replace("</PartOf>", "&undefined;</PartOf>")
    if k == "unclosed":
        md = md.replace("</PartOf>", "")
    if k == "mixed":
        md = md.replace("</License>", "</license>")
    if k == "nohist":
        a, b = md.index("<History>"), md.index("</History>")
        md = md[:a] + md[b + len("</History>"):]
    if k == "insane":
        md = md.replace("<Name>%s</Name>" % escape(p["src"]), "<Name>../../../%s</Name>" % escape(p["src"]))
    if k == "noname":
        md = md.replace("<Package><Name>%s</Name>" % escape(p["name"]), "<Package><Name></Name>")
    if k == "badnum":
        md = md.replace('<Update release="', '<Update release="x')
    members = [("metadata.xml", md)]
    if k == "nometa":
        members = []
    if p.get("broken") != "files":
        members.append(("files.xml", files_xml(p["files"])))
    if p["comar"]:
        members.append(("comar/package.py", "# comar " + p["meta"]))
    if p.get("broken") != "archive:missing":
        members.append(("install.tar.xz", tarball(p["files"], (p.get("broken") or "").partition(":")[2])))
    write_zip(path, members)
    if k == "truncated":
        d = open(path, "rb").read()
        open(path, "wb").write(d[: len(d) * 2 // 3])


BAD_KINDS = ["garbage", "nometa", "badxml", "entity", "unclosed", "mixed", "nohist", "insane", "noname", "badnum", "truncated", "missing", "empty", "dir", "fifo"]

NAMES = [("foo", "foo"), ("foo-dbginfo", "foo"), ("foo-devel", "foo"), ("bar", "bar"), ("libx", "libx"), ("libxml2", "libxml2"),
         ("lib", "lib"), ("lib-dbginfo", "lib"), ("Nano", "Nano"), ("nano", "nano"), ("a", "a"), ("foo-package", "foo"), ("xorg-server-dbginfo", "xorg"),
         ("python3", "libPython"), ("main-package-foo", "main")]
URLISH = ["a b", "a?b", "a#b", "a%41", "%41", "a+b", "a&b=c", "é/"[:1] + "x", "a;b", "a:b", "a\\b", "100%", "~x", "日本", "a\"b", "a'b", "x..y", "create"]
REPOS = ["main", "main-2", "unstable", "Main", "m", "a b", "lib", "repo", "pool", "x.y", "ünï"]

PROFILES = {
    # kind weights, and what the universe looks like
    "mix":    dict(w="create:4 delete:2 import:10 upload:6 clone:4 pull:5 copy:5 remove:5 trim:4 trimobs:3 index:2 delta:5 assets:4 mess:1 restart:2", names=5, rel=4),
    "sources": dict(w="create:3 import:12 copy:10 remove:10 clone:2 pull:1 trim:1 delta:2 assets:2 delete:1", names=6, rel=4),
    "pull":   dict(w="create:4 import:12 pull:12 copy:3 remove:3 clone:3 assets:4 delta:1 trim:1 delete:1", names=5, rel=4),
    "clone":  dict(w="create:3 import:12 clone:12 delta:6 remove:2 delete:5 assets:4 trim:1", names=4, rel=4, deltas=True),
    "stale":  dict(w="create:3 import:11 clone:9 delta:11 remove:2 delete:4 pull:2 trim:1", names=2, rel=6, deltas=True, torn=0),
    "obs":    dict(w="create:3 import:14 trimobs:8 assets:8 index:3 clone:2 delta:2 delete:1", names=7, rel=3, badassets=0.05),
    "move":   dict(w="create:4 delete:2 import:10 clone:5 pull:7 copy:9 remove:8 trim:2 delta:3 assets:2 restart:1", names=5, rel=4),
    "trim":   dict(w="create:3 import:14 clone:2 trim:8 trimobs:6 assets:6 remove:2 delta:3 copy:2 upload:2", names=4, rel=6),
    "delta":  dict(w="create:3 import:9 clone:4 pull:3 copy:3 remove:4 trim:3 delta:16 delete:2 trimobs:1 assets:1 upload:2", names=3, rel=5, deltas=True),
    "cross":  dict(w="create:3 import:9 clone:3 pull:2 copy:2 remove:5 trim:3 delta:5 produce:9 include:9 delete:2 upload:2", names=2, rel=5, deltas=True),
    "twins":  dict(w="create:2 import:12 clone:3 pull:1 copy:3 remove:8 trim:3 delta:10 delete:1 upload:1", names=2, rel=4, deltas=True, tied=0.7),
    "torn":   dict(w="create:2 import:14 upload:3 clone:2 remove:2 delta:14 delete:1", names=2, rel=4, deltas=True, bad=0.2, torn=0.4),
    "upload": dict(w="create:4 upload:16 import:3 delete:2 clone:2 remove:2 assets:2 restart:1 trim:1", names=4, rel=4, bad=0.3),
    "index":  dict(w="create:4 import:8 upload:3 index:4 assets:8 delta:4 clone:3 remove:2 trimobs:2 delete:1 pull:2", names=6, rel=3, texts=True, deltas=True),
    "bigtext": dict(w="create:3 import:14 index:4 clone:3 assets:6 delta:1 pull:2", names=5, rel=2, texts=True, big=True, badassets=0.05),
    "life":   dict(w="create:10 delete:10 import:8 clone:6 pull:2 mess:2 restart:4 delta:3 copy:2 index:2", names=3, rel=3),
    "hostile": dict(w="create:4 import:10 upload:8 assets:6 index:4 clone:3 pull:2 delta:7 mess:1 delete:2 remove:2", names=4, rel=3, bad=0.45, badassets=0.6, torn=0.3),
    "daemon": dict(w="create:6 delete:2 import:8 upload:6 clone:4 pull:4 copy:5 remove:5 trim:4 trimobs:3 index:3 delta:2 assets:3 mess:1", names=4, rel=3, bad=0.2, badassets=0.1),
}


def broken(pr, rng):
    """what is wrong in a package that can be taken in all the same"""
    if rng.random() >= pr.get("torn", 0.05 if pr.get("deltas") else 0.02):
        return ""
    return rng.choice(["files", "archive:header", "archive:data", "archive:sum", "archive:stream", "archive:garbage", "archive:empty", "archive:missing"])


def universe(profile, seed, out, depth):
    rng = random.Random("%s/%s" % (profile, seed))
    trng = random.Random("%s/%s/ties" % (profile, seed))
    pr = PROFILES[profile]
    texts = TEXTS
    if pr.get("big"):
        # so long that characters of all lengths fall on every boundary
        texts = ["".join(rng.choice(["😀", "→", "é", "\u00a0", "x", "“", "日", "𝒳", "a b", "\u2028", "🎉🎉🎉", "½", "&", "<", "]]>"]) for _ in range(rng.choice([50, 700, 1500, 3000]))) + "." for _ in range(12)]
        texts += [c * n + "." for c, n in (("😀", 2500), ("→", 3000), ("\u00a0", 4500))]
    names = rng.sample(NAMES, min(len(NAMES), pr["names"]))
    if rng.random() < 0.8:   # the companion rule needs companions
        names = list(dict.fromkeys([("foo", "foo"), ("foo-dbginfo", "foo")] + names))[: max(2, pr["names"])]
    files, bysha, reg = {}, {}, {}
    pk = os.path.join(out, "pk")
    nmeta = 0

    def add(fid, p):
        path = os.path.join(pk, fid, p["id"])
        build(path, p)
        entry = dict(kind="pkg" if p["kind"] == "pkg" else p["kind"], id=p["id"], name=p["name"], src=p["src"], srcl=p["src"].lower(),
                     rel=p["hist"][0], ver=p["ver"], dist=p["dist"], arch=p["arch"], sha="c:" + fid, path=os.path.join("pk", fid, p["id"]))
        files[fid] = entry
        if p["kind"] == "pkg":
            bysha[entry["sha"]] = dict(meta=p["meta"], broken=p.get("broken") and p["broken"].split(":")[0] or "",
                                       files={k: ("" if c is None else fhash(c)) for k, c in p["files"].items()})

    for name, src in names:
        nrel = rng.randint(1, pr["rel"])
        rels = sorted(rng.sample([1, 2, 3, 5, 9, 10, 11, 100], nrel))
        if rng.random() < 0.1:
            rels = [rng.choice([0, -1])] + rels
        tie = rng.random() < 0.35
        # where deltas are made, builds share a release more often, not only the last, and one of them may belong to another source
        tied = {rel for rel in rels if trng.random() < pr.get("tied", 0.35)} if pr.get("deltas") else {rels[-1]} if tie else set()
        base = {"usr/": None, "usr/share/": None, "usr/share/%s" % name: "c-%s-0" % name, "usr/bin/%s" % name: "bin-%s" % name}
        for j, rel in enumerate(rels):
            for v in range(2 if rel in tied else 1):
                vsrc = src + "-next" if v and pr.get("deltas") and trng.random() < 0.5 else src
                nmeta += 1
                cur = dict(base)
                style = rng.choice(["change", "change", "same", "rename", "all", "adddir", "remove", "dup"]) if pr.get("deltas") else rng.choice(["change", "same", "all"])
                if style == "change":
                    cur["usr/bin/%s" % name] = "bin-%s-%d-%d" % (name, rel, v)
                elif style == "rename":
                    cur["usr/bin/%s-new" % name] = cur.pop("usr/bin/%s" % name, "bin-%s" % name)
                elif style == "all":
                    cur = {"usr/%s/%d" % (name, k): "all-%s-%d-%d-%d" % (name, rel, v, k) for k in range(2)}
                elif style == "adddir":
                    cur["var/"] = None
                    cur["var/x é%d" % rel] = "var-%d" % rel
                elif style == "remove":
                    cur.pop("usr/share/%s" % name, None)
                elif style == "dup":
                    cur["usr/copy"] = "dupe-%s" % name
                    cur["usr/copy2"] = "dupe-%s" % name
                if rng.random() < 0.3:
                    base = cur
                arch = "x86_64" if rng.random() < 0.85 else "i686"
                dist = "1" if rng.random() < 0.85 else "2"
                ver = "1.%d%s" % (rel, "" if v == 0 else "b")
                hist = [rel] + [x for x in reversed(rels) if x < rel]
                p = dict(kind="pkg", name=name, src=vsrc, ver=ver, dist=dist, arch=arch, hist=hist, meta="m%d." % nmeta, files=cur,
                         text=rng.choice(texts) if pr.get("texts") or rng.random() < 0.5 else "text", deps=[(rng.choice(names)[0], rng.randint(0, 4))] if rng.random() < 0.5 else [],
                         prov=rng.choice(["", "", "pc-%s" % name]), sums=rng.choice([0, 1, 1, 1, 2, 3]), sec=rng.random() < 0.3,
                         inst=rng.randint(0, 10 ** 10), comar=rng.random() < 0.3, broken=broken(pr, rng),
                         id="%s-%s-%d-%s-%s.eopkg" % (name, ver, rel, dist, arch))
                fid = "%s@%d%s" % (name, rel, "b" if v else "")
                add(fid, p)
                if rng.random() < 0.1:     # the same package built again: same name, other content
                    q = dict(p, files=dict(cur, **{"usr/rebuilt": "re-%s" % fid}))
                    add(fid + "+", q)
                if rng.random() < pr.get("bad", 0.06):
                    q = dict(p, kind=rng.choice(BAD_KINDS), id="%s-%s-%d-%s-%s.eopkg" % (name, "bad", rel, dist, arch))
                    add(fid + "!", q)

    # asset files
    adir = os.path.join(out, "assets")
    os.makedirs(adir, exist_ok=True)
    dist, comps, groups = {}, {}, {}
    allnames = [n for n, _ in names]
    badp = pr.get("badassets", 0.12)

    taken = set()

    def badvariant(x, i):
        s = [x[: len(x) // 2], "", "<PISI", "not xml at all", "<PISI>&undefined;</PISI>"][i % 5]
        while s in taken:
            s += "\n"
        taken.add(s)
        return s

    for i in range(4):
        obs = rng.sample(allnames, rng.randint(0, min(3, len(allnames)))) if i else []
        if rng.random() < 0.4:
            obs.append(rng.choice([n for n in allnames]).replace("-dbginfo", ""))
        obs = list(dict.fromkeys(obs))
        bad = rng.random() < badp
        t = "dist%d" % i
        xml = "<PISI><SourceName>S%d</SourceName><Description xml:lang=\"en\">%s</Description><Description xml:lang=\"nl\">%s</Description><Version>1.%d</Version><Type>Core</Type><BinaryName>%s</BinaryName><Obsoletes>%s</Obsoletes></PISI>" % (
            i, escape(rng.choice(texts)), escape(rng.choice(texts)), i, escape("Bin " + t), "".join("<Package>%s</Package>" % escape(o) for o in obs))
        if bad:
            xml = badvariant(xml, rng.randint(0, 4))
        dist[t] = dict(bad=bad, obs=obs if not bad else [], tok=t)
        open(os.path.join(adir, t), "w").write(xml)
        bad = rng.random() < badp
        t = "comp%d" % i
        xml = "<PISI><Components>%s</Components></PISI>" % "".join(
            "<Component><Name>%s</Name>%s<Summary%s>%s</Summary><Description xml:lang=\"en\">%s</Description><Group>g</Group><Maintainer><Name>%s</Name><Email>e@f</Email></Maintainer></Component>" % (
                escape("c%d.%d" % (i, k)), "<LocalName xml:lang=\"en\">L %d</LocalName>" % k if rng.random() < 0.7 else "", ' xml:lang="en"' if rng.random() < 0.6 else "",
                escape(rng.choice(texts)), escape(rng.choice(texts)), escape(rng.choice(texts)[:20])) for k in rng.sample(range(5), rng.randint(0 if i == 3 else 1, 3)))
        if bad:
            xml = badvariant(xml, rng.randint(0, 4))
        comps[t] = dict(bad=bad, tok=t if bad or "<Component>" in xml else "")
        open(os.path.join(adir, t), "w").write(xml)
        bad = rng.random() < badp
        t = "grp%d" % i
        xml = "<PISI><Groups>%s</Groups></PISI>" % "".join(
            "<Group><Name>%s</Name>%s<Icon>i</Icon></Group>" % (escape("g%d.%d" % (i, k)), "<LocalName xml:lang=\"en\">%s</LocalName>" % escape(rng.choice(texts)) if rng.random() < 0.7 else "")
            for k in rng.sample(range(5), rng.randint(0 if i == 3 else 1, 3)))
        if bad:
            xml = badvariant(xml, rng.randint(0, 4))
        groups[t] = dict(bad=bad, tok=t if bad or "<Group>" in xml else "")
        open(os.path.join(adir, t), "w").write(xml)

    kinds = []
    for part in pr["w"].split():
        k, n = part.split(":")
        kinds += [k] * int(n)
    repos = rng.sample(REPOS, 4)
    if profile == "daemon":
        repos = rng.sample(REPOS, 2) + rng.sample(URLISH, 2) + [rng.choice(["", ".", "..", "a/b", "/x", "a//b", "x/"])]
    if profile in ("life", "hostile"):
        repos += [rng.choice(["", ".", "..", "a/b", "/etc/x", "../up"])]
    prof = dict(depth=depth, repos=repos, names=allnames + ["absent"], sources=sorted(set(s for _, s in names) | {f["src"] for f in files.values()}) + ["absent", "FOO"],
                files=sorted(files), kinds=kinds, dists=sorted(dist), comps=sorted(comps), groups=sorted(groups))
    uni = dict(files=files, bysha=bysha, dist=dist, comps=comps, groups=groups, profile=prof)
    json.dump(uni, open(os.path.join(out, "uni.json"), "w"))
    return uni


if __name__ == "__main__":
    profile, seed, out = sys.argv[1:4]
    depth = int(sys.argv[4]) if len(sys.argv) > 4 else 25
    os.makedirs(out, exist_ok=True)
    universe(profile, seed, out, depth)
