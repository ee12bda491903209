"""Failing allocations, failing files and streams, jumps out of error callbacks."""
import random, struct
from .core import Case
from .gen_w import *
from .gen_r import *
from .gen_t import tcase, tneeds, visit, acc_any, DATA, pools, tstreams, CH, CHZ
from .reg_r import cutp, join
from .reg_t import deep, wide

def wprog(r, builder=.5, maxlen=None, depth=None):
    from .registry import balance, builder_doc
    if r.random() < .25: return builder_doc(r, r.choice([1, 2, 3, 5]), r.choice([0, 5, 30, 60, 200, 5000]))
    return balance(value(r, Opt(maxdepth=depth or r.choice([1, 2, 3]), maxlen=maxlen or r.choice([5, 40, 300]), builder_p=builder))) or ["nil"]
def rprog(r, alloc=True):
    """a message and a complete reading of it"""
    if r.random() < .2:
        nd = mk_array(r, [doc(r, DOpt(maxdepth=1, maxlen=30, minimal=True, strings=("text",))) for _ in range(r.choice([3, 20, 60]))])
    else: nd = doc(r, DOpt(maxdepth=r.choice([1, 2, 3, 4]), maxlen=r.choice([5, 40, 130])))
    if r.random() < .15: nd = deep(r, r.choice([5, 9, 20]))
    return nd, cutp(read_ops(r, nd, ROpt(pdisc=.05, inplace=32)), 200)
def tprog(r, nd):
    b = [14]
    return ["parse", "root 0"] + visit(r, nd, 0, None, b)[:60]

def register(check):

    @check("C21")
    def c21(x):
        r = x.r
        K = x.n(8, 40)
        M = ("malloc",)
        af = lambda k, **e: [dict(e, af=i) for i in k]
        span = lambda: list(range(1, K + 1)) + [r.randrange(K, 60) for _ in range(3)]
        for i in range(x.n(80, 2500)):
            p = wprog(r, .6)
            e = r.choice([dict(sink="grow"), dict(sink="file", close=r.choice([0, 1, "name"])), dict(sink="flush", cap=r.choice([40, 4096])), dict(sink="fixed", cap=20000)])
            x.add([wcase(p + p[:3] * 0, af(span(), **dict(sink="grow"))), wcase(p, af(r.sample(span(), 4), **e) + af(r.sample(span(), 2), sink="grow", eh=0))])
        for n in (100, 4090, 5000, 9000, 20000):       # growing in one step and in many
            for p in (["str " + rbytes(r, n)], ["sbin %d" % (n // 4 * 4)] + ["bytes " + rbytes(r, n // 4)] * 4 + ["fin bin"], ["sarr %d" % n, "repnil %d" % n, "fin array"],
                      ["barr", "repnil %d" % n, "carr"], ["bmap", "str x61", "str " + rbytes(r, n), "cmap"], ["barr"] + ["bmap", "u8 1", "str " + rbytes(r, n // 5), "cmap"] * 5 + ["carr"]):
                x.add([wcase(p + ["nil"], af(list(range(1, 14)), sink="grow") + af([1, 2, 3, 5], sink="flush", cap=64))])
        for i in range(x.n(85, 2500)):
            nd, p = rprog(r)
            d = nd.enc()
            e = r.choice([dict(src="mem"), dict(src="stream", buf=r.choice([32, 64, 4096]), ch=r.choice(["1", "7", "1000000"])), dict(src="file", close=r.choice([0, 1, "name"]))])
            x.add([rcase(d + b"\xc0", p + ["tag"], af(span(), **e), needs=M)])
        for n in (0, 1, 5, 40, 5000):
            s = len_hdr(r, "str", n) + b"a" * n
            for o in ("a cstr %d" % (n + 1), "a utf8_cstr %d" % (n + 1)): x.add([rcase(s * 2 + b"\xc0", [o, o, "enil"], af([1, 2, 3], src="mem") + af([1, 2, 3, 4], src="file", close=1) + af([1, 2], src="stream", buf=32), needs=M)])
            x.add([rcase(s + b"\xc0", ["tag", "ballocz %d" % n, "done str", "enil"], af([1, 2, 3], src="mem") + af([1, 2, 3], src="file", close="name"), needs=M)])
            b = len_hdr(r, "bin", n) + b"b" * n
            x.add([rcase(b * 2, ["a bin %d" % n] * 2, af([1, 2, 3], src="mem"), needs=M), rcase(len_hdr(r, "ext", n, 5) + b"b" * n + b"\xc0", ["a ext %d" % n, "enil"], af([1, 2], src="mem"), needs=M)])
            a = len_hdr(r, "array", n) + b"\x01" * n
            if n < 41: x.add([rcase(a + b"\xc0", ["aalloc arr %d" % n] + ["n u8"] * n + ["done array"], af([1, 2, 3], src="mem"), needs=M), rcase(a + b"\xc0", ["aalloc nil %d" % n] + ["n u8"] * n + ["done array"] * (n > 0), af([1, 2, 3], src="stream", buf=32), needs=M)])
        for i in range(x.n(85, 2500)):
            j = r.random()
            nd = deep(r, r.choice([5, 20, 60])) if j < .2 else wide(r, r.choice([8, 40, 300])) if j < .4 else doc(r, DOpt(maxdepth=r.choice([1, 2, 3]), maxlen=r.choice([5, 40, 130])))
            d = nd.enc(); m = nd.count()
            p = tprog(r, nd)
            e = r.choice([dict(src="data"), dict(src="stream", ch=r.choice(CH)), dict(src="stream", ch=r.choice(["1", "7", "33"])), dict(src="file", close=r.choice([0, 1, "name"]))])
            x.add([tcase(d, p, af(span(), **e), needs=M)])
            k = min(m, 9)
            x.add([tcase(d + d, ["parse", "root 0", "dump 0"] * 2 + ["parse"], af(r.sample(span(), 4), **e) + af([1, 2, 3], src="pool", pool=m) + af([1, 2, 3, 4, 5], src="stream", ch=r.choice(CH), max=len(d), nodes=m), needs=M)])
            x.add([tcase(d, ["try", "got 0"] * 6, af(r.sample(span(), 4), src="stream", ch=r.choice(CHZ)), needs=M)])
        # sizes that no allocation can satisfy, or that cannot even be computed in 32 bits
        for n in (2**30 - 1, 2**30, 2**30 + 1, 2**30 + 16, 2**31 - 1, 2**31, 2**31 + 1, 2**31 + 2**30 + 5, 2**32 - 1):
            if n > 260 * 2**20:
                for k in ("arr", "nil"): x.add([rcase(b"\xdd" + struct.pack(">I", n) + b"\x01\x02", ["aalloc %s 4294967295" % k], [dict(src="mem")], needs=M)])
        for n in (2**31 - 4097, 2**31 - 6, 2**31 - 5, 2**31 - 4, 2**31, 2**31 + 1, 2**32 - 6, 2**32 - 5, 2**32 - 1):
            for b in (0xc6, 0xdb, 0xdd, 0xc9): x.add([tcase(bytes([b]) + struct.pack(">I", n) + b"\x01\x02\x03", [o, "root 0", "parse"], [dict(src="stream", max=2**32 - 1, nodes=2**32 - 1, ch=c) for c in ("1000", "6,1")], needs=M) for o in ("try", "parse")])
        big = [Case("M", ["huge page %d" % n], [{}], {"correct": True}, M, cfgs=["m32", "rel"]) for n in (2**28 + 1, 2**28 + 2**20)]
        big += [Case("M", ["huge write %d" % n], [{}], {"correct": True}, M, cfgs=["m32", "rel"]) for n in (2**31 + 1, 2**31 + 2**20)]
        big += [Case("M", ["huge write %d" % n], [{}], {"correct": True}, M, cfgs=["m32"]) for n in (2**32 - 2**20, 2**32 - 2**20 + 1)]
        big += [Case("M", ["huge %s %d" % (k, 2**32 - 1)], [{}], {"correct": True}, M, cfgs=["rel"]) for k in ("cstr", "ucstr", "data")]
        x.add(big)

    @check("C22")
    def c22(x):
        r = x.r
        modes = [1, 0, "name"]
        # writing: every point of failure
        for i in range(x.n(60, 1500)):
            p = wprog(r, .3, maxlen=r.choice([5, 40, 130]))
            q = [l for l in p]
            if r.random() < .4: q = p + ["flushmsg"] + p
            big = ["sbin 9000", "bytes " + rbytes(r, 5000), "bytes " + rbytes(r, 4000), "fin bin"] if r.random() < .3 else []
            pts = sorted({0, 1, 2, 5, 9, r.randrange(0, 40), r.randrange(0, 200), 4096, 4097, 5000, 9010})
            x.add([wcase(q + big, [dict(sink="file", close=r.choice(modes), failat=k) for k in pts] + [dict(sink="file", close=c, failclose=1) for c in modes] +
                         [dict(sink="file", close="name", failopen=1), dict(sink="file", close=1, failclose=1, unbuf=0), dict(sink="file", close="name", failat=r.choice(pts), unbuf=0), dict(sink="file", close=1, failat=r.choice(pts), unbuf=0)] +
                         [dict(sink="file", close=c, unbuf=u) for c in modes for u in (0, 1)])])
            x.add([wcase(q + big, [dict(sink="flush", cap=r.choice([32, 40, 64]), ferr=k, fer=r.choice(["io", "data", "memory"])) for k in (1, 2, 3, r.randrange(1, 12))])])
        # reading: every point of failure
        for i in range(x.n(90, 2000)):
            nd, p = rprog(r)
            d = nd.enc()
            if len(d) > 700: continue
            pts = sorted({0, 1, len(d) - 1, len(d), r.randrange(len(d) + 1), r.randrange(len(d) + 1), r.randrange(len(d) + 1)})
            if len(d) < 25 or x.thorough: pts = range(len(d) + 1)
            envs = [dict(src="file", close=r.choice(modes), failat=k, seek=r.randrange(2), unbuf=r.choice([1, 1, 0]), shortn=r.choice([0, 0, 3])) for k in pts] + \
                   [dict(src="file", close=c, seek=s) for c in modes for s in (0, 1)] + [dict(src="file", close="name", failopen=1), dict(src="file", close="name", failclose=1), dict(src="file", close=1, failclose=1)]
            x.add([rcase(d + b"\xc0", p + ["enil"], envs)])
            x.add([rcase(d, p, [dict(src="stream", buf=r.choice([32, 33, 64]), failat=k, eos=r.choice(["0", "-1", "io", "eof", "data"]), ch=r.choice(["1", "7", "1,30", "1000000"]), skip=r.randrange(2)) for k in pts])])
        for n in (200, 4095, 4096, 4097, 5000, 9000):         # skipping in files
            d = len_hdr(r, "bin", n) + bytes(n) + b"\xc0"
            for k in (0, 5, 100, n - 1, n, n + 3, n + 4, None):
                for s in (0, 1):
                    e = dict(src="file", close=r.choice(modes), seek=s, unbuf=r.choice([0, 1]))
                    if k is not None: e["failat"] = k
                    x.add([rcase(d, ["discard", "enil"], [e]), rcase(d, ["tag", "skip %d" % n, "done bin", "enil"], [e]), rcase(d, ["tag", "skip %d" % (n // 2), "bytes %d" % (n - n // 2), "done bin", "enil"], [e])])
            x.add([rcase(d[:n // 2], ["discard"], [dict(src="file", close=c, seek=s) for c in modes for s in (0, 1)])])
        # trees from files
        for i in range(x.n(50, 1200)):
            nd = doc(r, DOpt(maxdepth=r.choice([1, 2, 3]), maxlen=r.choice([5, 40, 130])))
            d = nd.enc() * r.choice([1, 1, 2])
            n = len(d)
            envs = [dict(src="file", close=r.choice(modes), failat=k, shortn=r.choice([0, 0, 3])) for k in sorted({0, 1, n - 1, n, r.randrange(n + 1)})] + \
                   [dict(src="file", close=c, seek=s) for c in modes for s in (0, 1)] + [dict(src="file", close=c, fmax=m) for c in modes for m in (n - 1 or 1, n, n + 1, 2**63 - 1, 2**63, 2**64 - 1)] + \
                   [dict(src="file", close="name", failopen=1), dict(src="file", close="name", failclose=1), dict(src="file", close=1, failclose=1), dict(src="file", close="name", failopen=1, fmax=2**63)]
            envs += [dict(src="file", close=r.choice(modes), missing=k, shortn=r.choice([0, 0, 3]), fmax=r.choice([0, 0, n])) for k in sorted({1, (n + 1) // 2, n})]
            x.add([tcase(d, ["parse", "root 0", "dump 0", "try"], envs)])
            x.add([tcase(b"", ["parse", "root 0"], [dict(src="file", close=c, seek=s) for c in modes for s in (0, 1)])])
            x.add([tcase(d, ["parse", "got 0", "parse", "got 0", "try"], [dict(src="stream", failat=k, eos=r.choice(["0", "-1", "io", "eof", "data"]), ch=r.choice(CH)) for k in sorted({0, 1, n - 1, n, r.randrange(n + 1), r.randrange(n + 1)})])])

    @check("C23")
    def c23(x):
        r = x.r
        J = lambda l: [dict(e, jump=1) for e in l]
        K = range(1, x.n(6, 30))
        errs = ["io", "invalid", "unsupported", "type", "too_big", "memory", "bug", "data", "eof"]
        from .registry import misuse
        for i in range(x.n(85, 2500)):
            p = wprog(r, .6)
            q = list(p)
            q.insert(r.randrange(len(q) + 1), "flag " + r.choice(errs))
            x.add([wcase(q + ["nil"], J([dict(sink=s, cap=9000) for s in ("grow", "flush", "fixed")] + [dict(sink="file", close=r.choice([0, 1, "name"]))]))])
            x.add([wcase(p, J([dict(sink="flush", cap=r.choice([32, 40]), ferr=r.randrange(1, 6), fer=r.choice(errs)) for _ in range(2)] + [dict(sink="fixed", cap=r.randrange(1, 100))] +
                              [dict(sink="file", close=r.choice([0, 1, "name"]), failat=r.choice([0, 3, 4096])), dict(sink="file", close=1, failclose=1), dict(sink="file", close="name", failclose=1)]))])
            x.add([wcase(p, J([dict(sink="grow", af=k) for k in K] + [dict(sink="flush", cap=64, af=r.randrange(1, 6)), dict(sink="file", close=1, af=r.randrange(1, 6))]))])
            m = misuse(r, x)
            x.add([Case("W", m + ["nil"], J([dict(sink="grow"), dict(sink="flush", cap=40)]), need=needs(m) | {"trk"})])
        for p in (["barr"], ["barr", "bmap", "u8 1"], ["bmap", "nil", "cmap"], ["sarr 2", "nil"], ["barr", "str " + rbytes(r, 5000)], ["sstr 5"], ["barr", "sarr 1", "barr", "repnil 400"]):   # left open
            x.add([Case("W", p, J([dict(sink="grow"), dict(sink="flush", cap=64), dict(sink="fixed", cap=9000), dict(sink="file", close=1), dict(sink="file", close=0)]), need=needs(p) | {"trk"})])
        for p in (["barr"], ["barr", "bmap", "u8 1"], ["bmap", "nil", "cmap"], ["barr", "str " + rbytes(r, 5000)]):
            x.add([Case("W", p, J([dict(sink="grow"), dict(sink="flush", cap=64), dict(sink="fixed", cap=9000), dict(sink="file", close=1)]), need=needs(p))])
        for i in range(x.n(85, 2500)):
            nd, p = rprog(r)
            d = nd.enc()
            cut = d[:r.randrange(len(d) + 1)] if r.random() < .5 else d
            bad = bytearray(d)
            for _ in range(2): bad[r.randrange(len(bad))] = r.choice([0xc1, 0xdd, 0xdb, 0xc6, 0xff, r.randrange(256)])
            src = [dict(src="mem"), dict(src="stream", buf=r.choice([32, 64]), ch=r.choice(["1", "7", "1000"]), eos=r.choice(["0", "-1", "data"]), skip=r.randrange(2)), dict(src="file", close=r.choice([0, 1, "name"]), failat=r.randrange(len(d) + 1)), dict(src="file", close=r.choice([0, 1, "name"]), seek=r.randrange(2))]
            x.add([rcase(cut, p + tail(r, 2), J(src), correct=None if cut is d else True)] if cut is not d else [rcase(d, p + ["flag " + r.choice(errs)] + tail(r, 2), J(src))])
            x.add([rcase(bytes(bad), p + ["flag data"], J(src), correct=False)])
            x.add([rcase(d + b"\xc0", p + ["tag"], J([dict(r.choice(src), af=k) for k in K]), needs=("malloc",))])
            x.add([rcase(d, p[:r.randrange(len(p) + 1)], J(src), correct=False)])        # perhaps left open
        for i in range(x.n(80,2500)):
            nd = doc(r, DOpt(maxdepth=r.choice([1, 2, 3]), maxlen=r.choice([5, 40, 130])))
            d = nd.enc(); n = len(d); m = nd.count()
            bad = bytearray(d); bad[r.randrange(n)] = r.choice([0xc1, 0xdd, 0xdb, 0xc6, 0xff, r.randrange(256)])
            p = tprog(r, nd); q = list(p)
            for _ in range(2): q.insert(r.randrange(2, len(q) + 1), acc_any(r, 0))
            src = [dict(src="data"), dict(src="pool", pool=m), dict(src="stream", ch=r.choice(CH)), dict(src="stream", ch=r.choice(CHZ), eos=r.choice(["-1", "data"])), dict(src="file", close=r.choice([0, 1, "name"]), failat=r.randrange(n + 1)), dict(src="file", close=r.choice([0, 1, "name"]))]
            x.add([tcase(d, q, J(r.sample(src, 3))), tcase(bytes(bad), ["parse", "root 0", "dump 0", "parse"], J(r.sample(src, 3)))])
            x.add([tcase(d[:r.randrange(n)], ["parse", "root 0", "parse", "try"], J(src[:1] + [dict(src="pool", pool=m), dict(src="stream", ch=r.choice(CH), eos=r.choice(["0", "-1", "io"])), dict(src="stream", ch="5", eos="data")]))])
            x.add([tcase(d, p + ["try"], J([dict(r.choice(src), af=k) for k in K] + [dict(src="pool", pool=max(1, m - 1)), dict(src="stream", ch=r.choice(CH), max=max(1, n - 1), nodes=m), dict(src="stream", ch=r.choice(CH), max=n, nodes=max(1, m - 1))]), needs=("malloc",))])
