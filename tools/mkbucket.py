"""Names of buckets and keys for BucketStore"""
import json, os, random, sys

NAMES = [b"a", b"ab", b"abc", b"b", b"Repo", b"Repo1", b"|bucket|", b"rootBucket", b"|", b"a b", "ü".encode(), b"A", b"\x00", b"\xff", b"a\x00", b"%s", b"Package", b"Async", b""]
KEYS = [b"", b"k", b"kk", b"k-", b"-k", b"a", b"ab", b"a-b", b"b-k", b"\x00", b"\xff\xff", b"|", b"|bucket", b"|bucket|", b"|bucket|-x", b"|rootBucket|", b"|rootBucket|-",
        b"|rootBucket|-k", b"foo-1.0-1-1-x86_64.eopkg", b"%d", b"\n", "é".encode(), b"Z", b"12345678", b"123456789"]
RESERVED = (b"|bucket|", b"|rootBucket|-")


def universe(profile, seed, depth):
    rng = random.Random("bucket/%s/%s" % (profile, seed))
    if profile == "dash":
        names = [[b"a"], [b"a-b"], [b"a", b"b"], [b"a-b", b"c"], [b"a", b"b-c"]]
        keys = [b"k", b"b-k", b"c", b"c-k"]
        paths = [[]] + names
    else:
        some = rng.sample(NAMES, 5)
        paths = [[], [some[0]], [some[1]], [some[0], some[1]], [some[1], some[0]], [some[2]], [some[0], some[2], some[3]], [some[2], some[4]], [some[0] + some[1]]]
        paths = [p for k, p in enumerate(paths) if p not in paths[:k]]
        keys = rng.sample(KEYS, 8) + [rng.choice(names) for names in [[n for n in some if b"-" not in n]]]
        keys = list(dict.fromkeys(keys))

    def joined(p):
        return b"-".join(p)

    # keys that show up where others have been stored
    every = set(keys)
    if profile == "dash":
        for p in paths:
            for q in paths:
                if len(p) == len(q) and p:
                    for k in keys:
                        e = joined(q) + b"-" + k
                        if e.startswith(joined(p) + b"-"):
                            every.add(e[len(joined(p)) + 1:])
    order = sorted(every)
    pd = {}
    for k, p in enumerate(paths):
        pd["p%d" % k] = dict(seq=False, names=[n.hex() for n in p], raw=p)
    seqs = [[b"Async"], [b"Sync"], [b"Asyn"]] if profile == "dash" else [[b"seq"], [b"seq2"], [b"seq", b"seq"]]
    for k, p in enumerate(seqs):
        pd["s%d" % k] = dict(seq=True, names=[n.hex() for n in p], raw=p)
    enc = {i: ["%d %s" % (len(p["raw"]), (joined(p["raw"]) + b"-" + x if p["raw"] else x).hex()) for x in order] for i, p in pd.items() if not p["seq"]}
    for p in pd.values():
        del p["raw"]
    return dict(paths=pd, keys=[dict(hex=k.hex(), used=k in keys, reserved=k.startswith(RESERVED)) for k in order], enc=enc, depth=depth, ideal=profile != "dash")
