"""Tree properties: which programs and environments decide them."""
import random
from .gen_t import *
from .reg_r import cutp, join, HDRLEN

def deep(r, n, kind=None):
    d = leaf(r, DOpt(maxlen=5))
    for i in range(n):
        k = kind or r.choice(["array", "map"])
        side = [leaf(r, DOpt(maxlen=3, real=False)) for _ in range(r.choice([0, 0, 1, 2]))]
        d = mk_array(r, side + [d]) if k == "array" else mk_map(r, side[:1] * 2 + [mk_int(r, i), d])
    return d
def wide(r, n):
    o = DOpt(maxlen=3, real=False, ext=False)
    return mk_array(r, [leaf(r, o) for _ in range(n)]) if r.random() < .5 else mk_map(r, [leaf(r, o) for _ in range(2 * (n // 2))])

def register(check):

    @check("C14")
    def c14(x):
        r = x.r
        one = ["parse", "root 0", "dump 0"]
        strings_of_model(x, lambda d: x.add([tcase(d, one + ["parse"], [r.choice(DATA + pools(1, 2, 5) + tstreams(r, 2))])]))
        def paged(d, n):
            x.add([tcase(d, one, [DATA[0], r.choice(pools(n) + tstreams(r, 1, max=len(d), nodes=n))], needs=("malloc",))])
        messages_of_nodes(x, paged, 300)
        for i in range(x.n(260, 7000)):
            n = r.choice([1, 1, 2, 3])
            ns = [doc(r, DOpt(maxdepth=r.choice([1, 2, 4]), maxlen=r.choice([5, 40, 300]))) for _ in range(n)]
            d = join(ns)
            if len(d) > 3000: continue
            m = max(k.count() for k in ns)
            x.add([tcase(d + r.choice([b"", b"", b"\xc1", b"\x92\x01"]), one * n, anysrc(r, len(d), m))])
        for i in range(x.n(40, 600)):
            nd = deep(r, r.choice([3, 10, 30, 60, 200 if x.thorough else 100]))
            x.add([tcase(nd.enc(), one, anysrc(r, nd.size(), nd.count()), needs=("malloc",))])
            nd = deep(r, r.choice([1, 2, 3, 4]))
            x.add([tcase(nd.enc(), one, anysrc(r, nd.size(), nd.count()))])
            nd = wide(r, r.choice([5, 6, 7, 8, 15, 16, 17, 60, 250, 255, 256, 257, 300, 700]))
            x.add([tcase(nd.enc() + b"\x01", one + one, anysrc(r, nd.size(), nd.count()))])
        # two messages, the first of each size around those of the buffers and of the integers
        for n in [1, 2, 3, 31, 32, 33, 127, 128, 255, 256, 257, 258, 511, 512, 1024, 4095, 4096, 4097, 65535, 65536, 65537]:
            if n > 3: h = b"\xd9%c" % (n - 2) if 33 <= n <= 257 else b"%c" % (0xa0 + n - 1) if n < 33 else b"\xda" + be(n - 3, 2) if n < 65539 else b"\xdb" + be(n - 5, 4)
            else: h = [b"\xc0", b"\xcc", b"\xcd"][n - 1]
            d = h + bytes(r.randrange(97, 123) for _ in range(n - len(h)))
            if n < 5000 or x.thorough: x.add([tcase(d + r.choice([b"\x93\x01\x02\x90", b"\xa0", b"\x91\xc2"]) + b"\x80", one * 3, DATA + [anysrc(r, n, 5)[0]])])
        # page boundaries: nested containers of every small size
        for a in range(1, 10):
            for b in range(0, 10):
                nd = mk_array(r, [mk_array(r, [mk_int(r, 100 + j, True) for j in range(b)], True)] + [mk_map(r, [mk_int(r, j, True) for j in range(2)], True) for _ in range(a)], True)
                x.add([tcase(nd.enc(), one, [r.choice(DATA + pools(nd.count()) + tstreams(r, 1))])])
        # every first byte, truncated at every point
        for b0 in range(256):
            n = HDRLEN.get(b0, 0)
            for p in sorted({bytes(n), bytes([0xff] * n), bytes([0x80]) [:n] + bytes(max(0, n - 1)), bytes(r.randrange(256) for _ in range(n)), bytes(max(0, n - 1)) + b"\x02"[:n]}):
                d = bytes([b0]) + p
                x.add([tcase(d + b"\x01\x02\x03", one + ["parse"], [r.choice(DATA + pools(40) + tstreams(r, 1))])])
                for k in range(len(d)):
                    if r.random() < (1 if x.thorough else .35): x.add([tcase(d[:k], [r.choice(["parse", "try"]), "root 0"], [r.choice(DATA + pools(40) + tstreams(r, 1))])])
        for i in range(x.n(60, 2000)):
            nd = doc(r, DOpt(maxdepth=3, maxlen=20))
            d = bytearray(nd.enc())
            if len(d) > 800: continue
            if r.random() < .5: d = d[:r.randrange(len(d) + 1)]
            else:
                for _ in range(r.choice([1, 2])): d[r.randrange(len(d))] = r.choice([0xc1, 0xdd, 0xdf, 0xdb, 0xc6, 0xc9, 0x90, 0xff, 0, r.randrange(256)])
            x.add([tcase(bytes(d), one * 2, anysrc(r, len(d), nd.count() + 5))])

    @check("C15")
    def c15(x):
        r = x.r
        got = lambda k: ["try", "got 0"] * k
        def small(d):
            n = len(d)
            envs = [dict(src="stream", ch=r.choice(["0,1", "1,0", "1", "2,0,0,1"]), max=r.choice([n, n + 1, max(1, n - 1), 1000]), nodes=r.choice([1, 2, 3, 1000]))]
            x.add([tcase(d, got(2 * n + 2), envs)])
        strings_of_model(x, small, 2)
        # every way to cut and pause the streams of the model of the buffer
        def cuts(ctx, out):
            from .registry import progs_of
            ps = progs_of(out)
            for p in ctx.r.sample(ps, min(ctx.n(350, 30000), len(ps))):
                n = sum(c == "0" for c in p[3:])
                ctx.add([tcase(p[0], got(n + 3), [dict(src="stream", ch=",".join(p[3:] + ["1000", "0"]), max=int(p[1]), nodes=int(p[2]))])])
        for b in (33, 70):
            x.models.append(dict(module="MCFeed.tla", env=dict(MC_BUF=str(b), MC_FULL=str(x.n(0, 1))), workers=1, use=cuts, timeout=x.n(400, 3000)))
        # the same stream in many pieces, blocking and not
        for i in range(x.n(70, 1500)):
            n = r.choice([1, 2, 3])
            ns = [doc(r, DOpt(maxdepth=r.choice([1, 2, 3]), maxlen=r.choice([5, 40, 130]))) for _ in range(n)]
            d = join(ns)
            if len(d) > 1200: continue
            m = max(k.count() for k in ns); sz = max(k.size() for k in ns)
            lim = r.choice([dict(), dict(), dict(max=sz, nodes=m), dict(max=sz + r.choice([0, 1, 40]), nodes=m + r.choice([0, 1, 40])),
                            dict(max=max(1, sz - 1), nodes=m), dict(max=sz, nodes=max(1, m - 1))])
            x.add([tcase(d, got(n) + ["parse", "got 0"] + got(1), [dict(src="stream", ch=c, **lim) for c in r.sample(CH, 4)])])
            z = r.sample(CHZ, 5)
            x.add([tcase(d, got(len(d) + 12 if len(d) < 12 else 12 + 2 * n), [dict(src="stream", ch=c, eos=r.choice(["0", "0", "-1", "data"]), **lim) for c in z])])
        # every split of small streams in two and three
        for i in range(x.n(14, 200)):
            ns = [doc(r, DOpt(maxdepth=3, maxlen=12)) for _ in range(2)]
            d = join(ns)
            if len(d) > 60 or len(d) < 2: continue
            m = max(k.count() for k in ns); sz = max(k.size() for k in ns)
            envs = []
            for k in range(1, len(d)): envs.append("%d,0,%d,0" % (k, len(d) - k))
            for _ in range(10):
                a = r.randrange(1, len(d)); b = r.randrange(1, len(d) - a + 1); envs.append("%d,0,%d,0,1000,0" % (a, b))
            x.add([tcase(d, got(7), [dict(src="stream", ch=c, max=sz, nodes=m) for c in envs])])
        # every limit against a message
        for i in range(x.n(16, 300)):
            nd = doc(r, DOpt(maxdepth=3, maxlen=40)); pre = doc(r, DOpt(maxdepth=1, maxlen=3)) if r.random() < .5 else None
            d = (pre.enc() if pre else b"") + nd.enc() + b"\xc0\x01"
            if len(d) > 400: continue
            sz, m = nd.size(), nd.count()
            envs = []
            for s in sorted({1, 2, max(1, sz // 2), max(1, sz - 1), sz, sz + 1, sz + 33, sz + 1000}):
                for q in sorted({1, max(1, m // 2), max(1, m - 1), m, m + 1, m + 9}):
                    if x.thorough or r.random() < .5: envs.append(dict(src="stream", max=s, nodes=q, ch=r.choice(CH + CHZ)))
            x.add([tcase(d, got(9), envs)])
            # the same limits on data held in memory
            envs = [dict(src="data", max=s, nodes=q) for s in (max(1, sz - 1), sz) for q in (max(1, m - 1), m)] + [dict(src="pool", pool=m, max=sz, nodes=m), dict(src="pool", pool=m, max=max(1, sz - 1), nodes=m)]
            x.add([tcase(nd.enc() + b"\x05", ["parse", "got 0", "parse", "got 0"], envs)])
        # limits changed between messages
        for i in range(x.n(20, 300)):
            ns = [doc(r, DOpt(maxdepth=2, maxlen=20)) for _ in range(2)]
            d = join(ns)
            if len(d) > 300: continue
            p = []
            for k in ns: p += ["limits %d %d" % (max(1, k.size() - r.choice([0, 0, 0, 1])), max(1, k.count() - r.choice([0, 0, 0, 1]))), "parse", "got 0"]
            x.add([tcase(d, p, tstreams(r, 3, eos="0") + DATA)])
        # ends of streams at every point
        for i in range(x.n(12, 200)):
            nd = doc(r, DOpt(maxdepth=2, maxlen=20))
            d = nd.enc()
            if len(d) > 60: continue
            for k in range(len(d)):
                if x.thorough or r.random() < .5: x.add([tcase(d[:k], [r.choice(["parse", "try"]), "got 0", r.choice(["parse", "try"]), "try", "root 1"], tstreams(r, 2) + [dict(src="stream", ch=r.choice(CHZ), eos=r.choice(["-1", "0", "io", "memory"]))])])
        # malformed after several pieces
        for i in range(x.n(30, 600)):
            nd = doc(r, DOpt(maxdepth=3, maxlen=20))
            d = bytearray(nd.enc())
            if len(d) > 200: continue
            d[r.randrange(len(d))] = r.choice([0xc1, 0xdd, 0xdf, 0xdb, 0xc6, 0xd4, 0x9f])
            x.add([tcase(bytes(d), got(8), [dict(src="stream", ch=c, max=r.choice([nd.size(), 5000]), nodes=r.choice([nd.count(), 5000])) for c in r.sample(CH + CHZ, 3)])])

    @check("C16")
    def c16(x):
        r = x.r
        one = ["parse", "root 0", "ntype 0", "try"]
        # exactly as many nodes as there are objects, and one fewer
        messages_of_nodes(x, lambda d, n: x.add([tcase(d, one, [dict(src="pool", pool=max(1, n - r.choice([0, 1]))), dict(src="data", max=len(d), nodes=max(1, n - r.choice([0, 1])))], needs=("malloc",))]), 150)
        big = [b"\xdd", b"\xdf", b"\xdb", b"\xc6", b"\xc9"]
        cnts = [0xffff, 0x10000, 0xfffff, 0xffffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x1000, 300]
        for h in big + [b"\xdc", b"\xde", b"\xda", b"\xc5", b"\xc8"]:
            w = 4 if h in big else 2
            for c in cnts:
                if c >= 1 << (8 * w): continue
                hd = h + be(c, w)
                for pad in (0, 1, 5, 40, 300):
                    envs = DATA + pools(3, 400) + [dict(src="stream", max=r.choice([100, 1000, 2000]), nodes=r.choice([50, 1000, 2000]), ch=r.choice(CH))]
                    if w == 2: envs += [dict(src="stream", ch=r.choice(CH), max=100000, nodes=200000)]
                    x.add([tcase(hd + bytes(pad), one, r.sample(envs, 2) if not x.thorough else envs)])
        # counts repeated at every level
        for i in range(x.n(60, 1500)):
            d = b""
            for _ in range(r.choice([2, 3, 10, 50])):
                h = r.choice([b"\xdc", b"\xde", b"\xdd", b"\xdf", b"\x9f", b"\x8f", b"\x91", b"\x82"])
                d += h + (be(r.choice([0, 1, 2, 255, 0xffff, 1000]), 2) if h in (b"\xdc", b"\xde") else be(r.choice([1, 2, 0xffff, 0xffffffff, 0x55555555, 0x80000001]), 4) if h in (b"\xdd", b"\xdf") else b"")
            d += bytes(r.choice([0, 3, 50, 500]))
            x.add([tcase(d, one, DATA + pools(r.choice([1, 10, 100, 1000])) + [dict(src="stream", ch=r.choice(CH), max=r.choice([20, 200, 2000]), nodes=r.choice([20, 200, 2000]))])])
        # pools and limits around the exact size
        for i in range(x.n(120, 3000)):
            n = r.choice([1, 1, 2])
            ns = [doc(r, DOpt(maxdepth=r.choice([1, 2, 3]), maxlen=20)) for _ in range(n)]
            d = join(ns); m = max(k.count() for k in ns)
            if len(d) > 1500: continue
            p = ["parse", "root 0", "dump 0"] * n
            x.add([tcase(d, p, pools(m - 1, m, m + 1, ns[0].count(), r.randrange(1, m + 1)) + [dict(src="data", max=5000, nodes=max(1, m - 1)), dict(src="data", max=5000, nodes=m), dict(src="pool", pool=m + 2, max=5000, nodes=max(1, m - 1))])])
        # memory per byte of data: flat, nested, textual
        for i in range(x.n(16, 200)):
            for nd in (wide(r, r.choice([300, 1000])), deep(r, r.choice([50, 150])), mk_array(r, [mk_str(r, 40) for _ in range(r.choice([10, 30]))]), mk_array(r, [mk_array(r, [mk_int(r, 1, True)] * k, True) for k in range(12)], True)):
                x.add([tcase(nd.enc(), ["parse", "root 0"], DATA + [dict(src="stream", ch=r.choice(["1000000", "50"]), max=nd.size() + r.choice([0, 100]), nodes=nd.count())] + tfiles(r, nd.size(), 1), needs=("malloc",))])
        # exactly at the largest counts the tree can announce
        for c in (0x7fffffff, 0x80000000, 0x80000001, 0xffffffff):
            for h in (b"\xdf", b"\xdd"):
                for mx in (1, 5, 6, 7, 100):
                    x.add([tcase(h + be(c, 4) + bytes(20), one, [dict(src="stream", ch=r.choice(CH), max=mx, nodes=r.choice([1, 2, 1000])), dict(src="data", max=mx, nodes=10)])])

    @check("C17")
    def c17(x):
        r = x.r
        E = lambda n, c: anysrc(r, n, c, 1)
        # every accessor on every kind of value
        ints = [mk_int(r, v) for v in sorted(set(INTS + NEGS + UBIG))]
        for v in sorted(set(INTS + NEGS + UBIG)):
            for h in int_encs(v):
                for f in NUMF:
                    if x.thorough or r.random() < .3: x.add([tcase(h, ["parse", "root 0", "nn %s 0" % f, "nn u8 0", "ntype 0"], E(len(h), 1))])
        vals = [Node("nil", b"\xc0"), Node("bool", b"\xc2", 0), Node("bool", b"\xc3", 1), mk_int(r, 0), mk_int(r, 1), mk_int(r, -1), mk_int(r, 2**64 - 1), mk_int(r, -2**63),
                Node("float", b"\xca" + be(0x3f800000, 4), 0), Node("float", b"\xca" + be(0x7fc00001, 4), 0), Node("double", b"\xcb" + be(0x3ff0000000000000, 8), 0), Node("double", b"\xcb" + be(0x47efffffffffffff, 8), 0),
                mk_str(r, 0), Node("str", b"\xa1", 1, b"a"), Node("str", b"\xa2", 2, b"a\0"), Node("str", b"\xa2", 2, b"\xc0\x80"), Node("str", b"\xd9\x08", 8, b"abcdefgh"), mk_str(r, 69), mk_str(r, 70), mk_str(r, 71),
                Node("bin", b"\xc4\x00", 0), Node("bin", b"\xc4\x02", 2, b"ab"), Node("bin", b"\xc5\x00\x46", 70, bytes(70)), Node("ext", b"\xd4\x05", 1, b"z", x=5), Node("ext", b"\xc7\x00\x80", 0, b"", x=-128),
                mk_ts(r, 5, 0), mk_ts(r, 5, 6), mk_ts(r, -5, 999999999), Node("ext", b"\xd7\xff", 8, b"\xff" * 8, x=-1), Node("ext", b"\xd5\xff", 2, b"ab", x=-1), Node("ext", b"\xd6\x00", 4, b"abcd", x=0),
                mk_array(r, []), mk_array(r, [mk_int(r, 1)]), mk_array(r, [mk_int(r, 1), Node("nil", b"\xc0")]), mk_map(r, []),
                mk_map(r, [mk_int(r, 1), Node("nil", b"\xc0")]), mk_map(r, [Node("str", b"\xa1", 1, b"a"), mk_int(r, 4), mk_int(r, 1), mk_int(r, 2), mk_int(r, 7), mk_int(r, 9), Node("str", b"\xa0", 0), mk_int(r, 3)])]
        for nd in vals:
            for a in ALLACC:
                x.add([tcase(nd.enc(), ["parse", "root 0", acc(a, 0)] + [acc_any(r, 0), acc_any(r, 9)], E(nd.size(), nd.count()))])
        # missing nodes
        m = mk_map(r, [mk_int(r, 5), mk_int(r, 6)])
        for a in ALLACC: x.add([tcase(m.enc(), ["parse", "root 0", r.choice(["look int_opt 0 1 1", "look str_opt 0 x61 1", "look cstr_opt 0 x61 1", "look uint_opt 0 6 1"]), acc(a, 1), acc_any(r, 1), acc_any(r, 0)], E(m.size(), m.count()))])
        # correct walks, then anything
        for i in range(x.n(300, 9000)):
            nd = doc(r, DOpt(maxdepth=r.choice([1, 2, 3]), maxlen=r.choice([5, 40, 130])))
            if nd.size() > 1500: continue
            ops = visit(r, nd, 0, None, [25])
            p = ["parse", "root 0"] + cutp(ops, 60)[:60]
            if p[-1] == "flag data": p.pop()
            p += [acc_any(r, r.choice([0, 1, 2, 3])) for _ in range(4)]
            x.add([tcase(nd.enc(), p, anysrc(r, nd.size(), nd.count()))])
        # indices
        for n in (0, 1, 2, 15, 16, 40):
            for k in ("array", "map"):
                nd = mk_array(r, [mk_int(r, i) for i in range(n)]) if k == "array" else mk_map(r, [mk_int(r, i) for i in range(2 * n)])
                for i in sorted({0, 1, n - 1, n, n + 1, 2 * n, 2**31 - 1, 2**32, 2**63, 2**64 - 1} - {-1}):
                    for op in ("aat", "kat", "vat"): x.add([tcase(nd.enc(), ["parse", "root 0", "%s 0 %d 1" % (op, i), "ntag 1", "nn u8 1"], E(nd.size(), nd.count()))])
        x.add([tcase(b"\x01", [], DATA + pools(2)), tcase(b"\x01", ["root 0", "nn u8 0"], DATA + pools(1)), tcase(b"\x91", ["try", "root 0", "ntag 0"], tstreams(r, 2, eos="0"))])
        for e in ("io", "data", "bug", "eof"): x.add([tcase(b"\x91\x05", ["parse", "root 0", "flag %s%s" % (e, w), "aat 0 0 1", "nn u8 1", "dump 0", "parse", "root 2", "flag type"], DATA + tstreams(r, 1) + [dict(src="data", eh=0), dict(src="data", e0=e)]) for w in ("", " 0")])

    @check("C18")
    def c18(x):
        r = x.r
        o = DOpt(maxdepth=1, maxlen=20, width=2)
        svals = [b"", b"a", b"b", b"ab", b"abc", b"\0", b"a\0", b"a\0b", b"key", b"\xc3\xa9", b"\xff", b"x" * 31, b"x" * 32, b"x" * 33]
        ivals = [0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, -1, -2, -32, -33, -128, -129, -2**31, -2**31 - 1, -2**63]
        def key():
            k = r.random()
            if k < .45: return mk_int(r, r.choice(ivals))
            if k < .9:
                b = r.choice(svals); return Node("str", len_hdr(r, "str", len(b)), len(b), b)
            if k < .95:
                b = r.choice(svals); return Node("bin", len_hdr(r, "bin", len(b)), len(b), b)
            return doc(r, o, 1)
        def others(k):
            """a key that looks like k"""
            if k.k == "int": return mk_int(r, r.choice([k.v, k.v + 1 if k.v < 2**64 - 1 else 3, -k.v if k.v < 2**63 else 7, (k.v + 2**32) % 2**64, k.v % 256, k.v - 2**64 if k.v >= 2**63 else k.v]))
            if k.k == "str": b = r.choice([k.body, k.body + b"\0", k.body[:-1], k.body + b"a", k.body[:-1] + b"?"]); return Node("str", b"", len(b), b)
            return key()
        for i in range(x.n(600, 20000)):
            n = r.choice([0, 1, 2, 2, 3, 4, 6, 16])
            ks = [key() for _ in range(n)]
            if ks and r.random() < .4:
                k = r.choice(ks); e = mk_int(r, k.v) if k.k == "int" else k
                ks.insert(r.randrange(len(ks) + 1), e)
            kids = []
            for j, k in enumerate(ks): kids += [k, mk_int(r, j) if r.random() < .5 else Node("nil", r.choice([b"\xc0", b"\xc2", b"\xc3", b"\xa0", b"\x90", b"\x80", b"\xc4\x00"])) if r.random() < .7 else mk_map(r, [mk_int(r, 1), mk_int(r, 2)])]
            nd = mk_map(r, kids)
            p = ["parse", "root 0"]
            for _ in range(r.choice([1, 2, 3, 4])):
                k = r.choice(ks) if ks and r.random() < .6 else others(r.choice(ks)) if ks and r.random() < .6 else key()
                l = look_key(r, k, 0, 1)
                if l: p += [l] + ([r.choice(["ntag 1", "ismissing 1", "ntype 1"])] if " has" not in l else [])
            x.add([tcase(nd.enc(), p + ["look int 0 1 2"], anysrc(r, nd.size(), nd.count(), 1))])
        # all pairs of equal and nearly equal integer keys under every lookup
        for v in ivals:
            for h in int_encs(v):
                for f in ("int", "uint", "int_opt", "uint_opt", "hasint", "hasuint"):
                    q = r.choice([v, v, v + 1 if v < 2**64 - 1 else v, v % 2**64 if "uint" in f else (v - 2**64 if v >= 2**63 else v)])
                    if ("uint" in f and not 0 <= q < 2**64) or ("uint" not in f and not -2**63 <= q < 2**63): continue
                    x.add([tcase(b"\x82" + h + b"\xc3\x05\xc2", ["parse", "root 0", "look %s 0 %d%s" % (f, q, "" if "has" in f else " 1")] + ([] if "has" in f else ["ntag 1"]), anysrc(r, 20, 5, 1))])
        for a in svals:
            for b in svals:
                d = b"\x82" + len_hdr(r, "str", len(a)) + a + r.choice([b"\x01", b"\xc0", b"\xc2", b"\xa0"]) + len_hdr(r, "str", len(b)) + b + r.choice([b"\x02", b"\xc0", b"\x90"])
                f = r.choice(["str", "str_opt", "hasstr"] + (["cstr", "cstr_opt", "hascstr"] if b"\0" not in a else []))
                x.add([tcase(d, ["parse", "root 0", "look %s 0 %s%s" % (f, hexs(a), "" if "has" in f else " 1")], anysrc(r, len(d), 5, 1))])
        # the value must not matter: every kind of value under a key, repeated or not
        vals = [b"\xc0", b"\xc2", b"\xc3", b"\x00", b"\xff", b"\xa0", b"\x90", b"\x80", b"\xc4\x00", b"\xca\0\0\0\0", b"\xcb" + bytes(8), b"\xc7\x00\x05", b"\x91\xc0"]
        for v in vals:
            for f in ("int", "uint", "str", "cstr"):
                for g in ("%s", "%s_opt", "has%s"):
                    k, q = (r.choice([b"\x07", b"\xcc\x07", b"\xd0\x07"]), "7") if f in ("int", "uint") else (b"\xa1k", "x6b")
                    for two in (False, True):
                        v2 = r.choice(vals)
                        ents = [k + v, (k if two else b"\x08") + v2]
                        if r.random() < .3: ents.append(b"\xa0" + r.choice(vals))
                        if r.random() < .3: ents.insert(1, b"\xc0" + r.choice(vals))
                        if r.random() < .3: r.shuffle(ents)
                        d = bytes([0x80 + len(ents)]) + b"".join(ents)
                        x.add([tcase(d, ["parse", "root 0", "look %s 0 %s%s" % (g % f, q, "" if g == "has%s" else " 1")] + ([] if g == "has%s" else ["dump 1"]), anysrc(r, len(d), 16, 1))])
        # small maps of every kind of key, under every lookup
        looks = ["int 0 1", "int 0 0", "int 0 -1", "uint 0 1", "uint 0 %d" % (2**64 - 1), "uint 0 7", "str 0 x61", "str 0 x", "str 0 x6100", "cstr 0 x61", "cstr 0 x", "str 0 x62"]
        def small(d):
            p = ["parse", "root 0"]
            for l in r.sample(looks, 5):
                k, rest = l.split(" ", 1)
                p += [r.choice(["look has%s %s" % (k, rest), "look %s_opt %s 1" % (k, rest)])]
                if "_opt" in p[-1]: p.append("dump 1")
            k, rest = r.choice(looks).split(" ", 1)
            x.add([tcase(d, p + ["look %s %s 2" % (k, rest), "dump 2"], anysrc(r, len(d), 16, 1))])
        maps_of_model(x, small, 400)
        # lists of strings
        zs = [s for s in svals if b"\0" not in s]
        for i in range(x.n(150, 4000)):
            ks = r.sample(zs, r.randrange(0, 6)) or [b"q"]
            if r.random() < .3: ks.append(r.choice(ks))
            if r.random() < .2: ks = r.sample(zs + [b"k%d" % j for j in range(80)], r.choice([8, 9, 16, 17, 33, 65])); r.shuffle(ks)
            s = r.choice(ks) if r.random() < .6 else r.choice(svals)
            nd = Node("str", len_hdr(r, "str", len(s)), len(s), s) if r.random() < .8 else key()
            x.add([tcase(nd.enc(), ["parse", "root 0", "%s 0 %s" % (r.choice(["nenum", "nenumopt"]), ",".join(hexs(k) for k in ks)), "ntype 0"], anysrc(r, nd.size(), nd.count(), 1))])
