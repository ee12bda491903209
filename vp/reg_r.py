"""Reader properties: which programs, environments and models decide them."""
import random
from .core import Case
from .gen_r import *
from .gen_w import rbytes, INTS, NEGS, UBIG, F32, F64, LENS

ERRS = ["io", "invalid", "unsupported", "type", "too_big", "memory", "bug", "data", "eof"]
HDRLEN = {0xc4: 1, 0xc5: 2, 0xc6: 4, 0xc7: 2, 0xc8: 3, 0xc9: 5, 0xca: 4, 0xcb: 8, 0xcc: 1, 0xcd: 2, 0xce: 4, 0xcf: 8, 0xd0: 1, 0xd1: 2,
          0xd2: 4, 0xd3: 8, 0xd4: 1, 0xd5: 1, 0xd6: 1, 0xd7: 1, 0xd8: 1, 0xd9: 1, 0xda: 2, 0xdb: 4, 0xdc: 2, 0xdd: 4, 0xde: 2, 0xdf: 4}

def cutp(p, n):
    """the beginning of a program; what it leaves open is left in an error state"""
    return p if len(p) <= n else p[:n] + ["flag data"]
def join(nodes): return b"".join(n.enc() for n in nodes)

def register(check):

    @check("C02")
    def c02(x):
        r = x.r
        x.models.append(dict(module="MCWire.tla"))
        pats = [bytes(16), b"\xff" * 16, b"\x80" + bytes(15), b"\x7f" + b"\xff" * 15, bytes(3) + b"\x01" * 13, b"\x01\x02\x03\x04\x05\x06\x07\x08\x09" + bytes(7)]
        fills = lambda n: [dict(src="stream", buf=r.choice([32, 33, 64]), ch=r.choice(["1", "2", "3", "1,2", "100"]), eos=r.choice(["0", "-1", "data"]))]
        for b0 in range(256):
            n = HDRLEN.get(b0, 0)
            ps = set(p[:n] for p in pats) | {bytes(r.randrange(256) for _ in range(n)) for _ in range(x.n(3, 60) if n else 0)}
            if n == 1 and (x.thorough or b0 in (0xcc, 0xd0, 0xd9, 0xc4)): ps |= {bytes([v]) for v in range(256)}
            for p in sorted(ps):
                d = bytes([b0]) + p
                full = d + b"\xc0\x01"
                end = "flag data"
                x.add([rcase(full, [r.choice(["peek", "tag"]), end], MEM), rcase(full, ["peek", "tag", "query"][:2] + [end], fills(len(full)))])
                if p == min(ps):
                    x.add([rcase(d[:k], [o], MEM + fills(k)) for k in range(len(d)) for o in ("tag", "peek", "discard")])
                    x.add([rcase(d[:k], [r.choice(TYPED), end], MEM) for k in range(len(d))])
        # every kind through every typed read
        samples = [b"\xc0", b"\xc1", b"\xc2", b"\xc3", b"\x00", b"\x7f", b"\xe0", b"\xff", b"\x80", b"\x90", b"\xa0", b"\xa1a", b"\xca\x40\x00\x00\x00", b"\xcb\x40" + bytes(7),
                   b"\xc4\x00", b"\xc7\x00\x05", b"\xd4\x05\x00", b"\xd6\xff" + bytes(4), b"\xcc\x05", b"\xd0\x05", b"\xd0\xfb", b"\xd3" + b"\xff" * 8, b"\xcf" + b"\xff" * 8, b"\xdc\x00\x00", b"\xdf" + bytes(4), b"\xdb" + bytes(4)]
        for s in samples:
            for t in TYPED: x.add([rcase(s + b"\xc0" * 3, [t, "flag data"], MEM)])
        o = DOpt(maxdepth=1)
        for _ in range(x.n(120, 4000)):
            ns = [leaf(r, o) for _ in range(5)]
            x.add([rcase(join(ns), sum([read_ops(r, n, ROpt(typed=False, pdisc=0)) for n in ns], []), MEM + streams(r, 60, 1))])

    @check("C07")
    def c07(x):
        r = x.r
        # every level of the smallest buffer with every way past the next object
        def use(ctx, out):
            from .registry import progs_of
            cs = progs_of(out)
            body = lambda n, v: bytes((v + k + 1) % 128 for k in range(n))
            for a, kind, n, op, ch, sk, cut in (cs if ctx.thorough else r.sample(cs, min(1500, len(cs)))):
                a, n, cut = int(a), int(n), int(cut)
                h = {"bin8": b"\xc4" + be(n, 1), "bin32": b"\xc6" + be(n, 4), "str": b"\xd9" + be(n, 1)}[kind]
                d = b"\xc4" + be(a, 1) + body(a, 40) + h + body(n, 0) + b"\xc0\xcd\x01\x02"
                t = "str" if kind == "str" else "bin"
                p = {"discard": ["discard"], "two": ["tag", "bytes %d" % (n // 3), "bytes %d" % (n - n // 3), "done " + t]}.get(op) or ["tag", "%s %d" % (op, n), "done " + t]
                e = [dict(src="stream", buf=32, ch=ch, **(dict(skip=1) if sk == "1" else {}))]
                if r.random() < .15: e.append(dict(src="mem"))
                x.add([rcase(d[:len(d) - cut], ["tag", "bytes %d" % a, "done bin"] + p + ["tag", "tag"], e)])
        x.models.append(dict(module="MCFill.tla", env=dict(MC_FULL=str(x.n(0, 1))), use=use, timeout=x.n(400, 3000)))
        # the same stream, cut in every way
        for i in range(x.n(36, 900)):
            o = DOpt(maxdepth=r.choice([1, 2, 3]), maxlen=r.choice([5, 40, 130, 300]))
            ro = ROpt(typed=r.random() < .6, inplace=r.choice([1000, 32, 40]))
            ns = [doc(r, o) for _ in range(r.choice([1, 2, 3]))]
            d = join(ns)
            if len(d) > 2500: continue
            p = cutp(sum([read_ops(r, n, ro) for n in ns], []), 120)
            if r.random() < .3: d = d[:r.randrange(len(d) + 1)]; p += tail(r, 2)
            x.add([rcase(d, p, MEM + [dict(src="memb", slack=r.choice([0, 1, 5]))] + streams(r, len(d), x.n(10, 16)) + files(r, 2))])
        # every split point of a small message, every buffer size
        for i in range(x.n(10, 120)):
            ns = [doc(r, DOpt(maxdepth=2, maxlen=40)) for _ in range(2)]
            d = join(ns)[:120]
            p = cutp(sum([read_ops(r, n, ROpt(pdisc=.1)) for n in ns], []), 40)
            x.add([rcase(d, p, [dict(src="stream", buf=b, ch="%d,1000" % k, skip=k % 2) for k in range(1, len(d) + 1, 1 if x.thorough else max(1, len(d) // 12)) for b in (32, 33, 57)])])
        # skips and discards across the buffer, up to the very end and past it
        for n in list(range(0, 140, x.n(9, 1))) + [199, 4095, 4096, 4097, 9000]:
            for extra in (0, 1, 40):
                d = len_hdr(r, "bin", n) + bytes(n) + b"\xc0" * extra
                envs = streams(r, n, 3) + files(r, 2) + [dict(src="stream", buf=32, skip=1, ch="7")]
                x.add([rcase(d, ["tag", "skip %d" % n, "done bin"] + ["tag"] * min(extra, 2), envs), rcase(d, ["discard"] + ["enil"] * min(extra, 2), envs),
                       rcase(d, ["tag", "skip %d" % (n // 3), "bytes 0", "skip %d" % (n - n // 3), "done bin"] + ["tag"] * min(extra, 2), envs)])
                if n: x.add([rcase(d[:len(d) - extra - 1], ["tag", "skip %d" % n], envs + MEM), rcase(d[:len(d) - extra - 1], ["discard"], envs + MEM)])

    @check("C08")
    def c08(x):
        r = x.r
        for i in range(x.n(90, 3000)):
            o = DOpt(maxdepth=r.choice([1, 2, 3, 4]), maxlen=r.choice([5, 40, 300]))
            ns = [doc(r, o) for _ in range(r.choice([1, 1, 2, 3]))]
            p = []
            for n in ns:
                q = read_ops(r, n, ROpt(typed=r.random() < .5, pdisc=r.choice([0, .2, 1])))
                for k in range(len(q)):
                    if r.random() < .3: p.append("peek") if r.random() < .8 and not any(q[k].startswith(w) for w in ("bytes", "skip", "should", "inplace", "balloc", "cstr", "utf8", "done", "ts")) else None
                    p.append(q[k])
                if r.random() < .6: p.append("remain")
            k = r.choice([0, 1, 3, 50])
            d = join(ns) + bytes(r.randrange(256) for _ in range(k))
            p = cutp(p + ["remain"], 150)
            x.add([rcase(d, p, MEM + [dict(src="memb", slack=9)] + streams(r, len(d), 4) + files(r, 1))])
        # peeking at everything, also at what is malformed or cut
        for i in range(x.n(60, 1500)):
            d = join([doc(r, DOpt(maxdepth=1, maxlen=20))])
            d = d[:r.randrange(len(d) + 1)] if r.random() < .6 else bytes([r.randrange(256)]) + d
            x.add([rcase(d, ["peek", "peek", "discard", "peek", "remain"], MEM + streams(r, len(d), 2))])
        for n in (0, 1, 2, 15, 16, 17, 300):
            for k in ("array", "map"):
                kids = [mk_int(r, r.choice(INTS)) for _ in range(n * (1 + (k == "map")))]
                d = len_hdr(r, k, n) + join(kids)
                x.add([rcase(d + b"\xc3\xc2", ["discard", "remain", "etrue", "remain", "efalse", "remain"], MEM + streams(r, len(d), 3))])

        # nesting far deeper than any stack of calls
        for h, k in ((b"\x91", 12000), (b"\x81\x01", 12000), (b"\x92\xc0", 12000), (b"\xdc\x00\x01", 9000), (b"\x92\x81\x05", 6000)):
            z = b"\xc0" * (k if h == b"\x92\x81\x05" else 0)
            for e in ([dict(src="mem")], [dict(src="stream", buf=64, ch="1000000")]) if x.thorough else ([r.choice([dict(src="mem"), dict(src="stream", buf=64, ch="1000000")])],):
                x.add([rcase(h * k + b"\xc3" + z + b"\x07", ["discard", "n u8", "remain"], e), rcase(h * k + b"\xc3" + z[1:], ["discard"] + (["discard"] if not z else []), e)])

    @check("C09", level="model_checking")
    def c09(x):
        r = x.r
        for i in range(x.n(70, 3000)):
            o = DOpt(maxdepth=r.choice([1, 2, 3]), maxlen=r.choice([5, 40, 300]))
            ns = [doc(r, o) for _ in range(r.choice([1, 2]))]
            d = join(ns)
            p = sum([read_ops(r, n, ROpt(typed=r.random() < .6)) for n in ns], [])
            k = r.randrange(len(p) + 1)
            how = r.random()
            if how < .35: q = p[:k] + ["flag " + r.choice(ERRS)] + p[k:]
            elif how < .7: d = d[:r.randrange(len(d) + 1)]; q = p
            else: q = p + p[:10]
            q = q[:60] + ["flag " + r.choice(ERRS)] + tail(r, 10)
            envs = MEM + streams(r, len(d), 3, eh=r.choice([0, 1, 1])) + files(r, 1)
            if r.random() < .4: envs += [dict(src="mem", jump=1), dict(src="stream", buf=40, ch="3", jump=1)]
            if r.random() < .2: envs.append(dict(src="stream", buf=r.choice([1, 9, 30, 31]), ch="3", skip=r.randrange(2), pre=r.choice([0, 1, 9]), eh=r.randrange(2)))
            if r.random() < .2: envs += [dict(src="mem", e0=r.choice(ERRS)), dict(src="mem", td=0)]
            x.add([rcase(d, q, envs)])
        # any error flagged by the user while data is still buffered
        for e in ERRS:
            d = b"\xa8" + b"xyzuvwst" + b"\x01\xa2ab\x92\x05\x06\xc4\x02pq" * 2
            for k in ([], ["tag"], ["tag", "bytes 3"], ["tag", "bytes 8", "done str"]):
                x.add([rcase(d, k + ["flag " + e] + r.sample(TAIL, 6), [r.choice(MEM)] + [dict(src="stream", buf=b, ch=c, skip=s) for b, c, s in ((64, "1000", 0), (32, "32", 1))] + files(r, 1))])
                x.add([rcase(d, k + ["flag " + e] + [t], [dict(src="stream", buf=64, ch="1000")]) for t in ("bytes 3", "tag", "inplace 2", "utf8 2", "cstr 5 2", "discard", "skip 2", "peek", "remain", "n u8", "l str")])
        for t in TAIL:          # each operation as the first thing after an error
            for e in (r.choice(ERRS), "flag"):
                x.add([rcase(b"\xc1\x01\x02\x03", ["tag" if e == "flag" else "flag " + e, t, t] + tail(r, 2), MEM + streams(r, 4, 1) + [dict(src="mem", e0="data")])])
        # misuse flags an error too: nothing may be filled or skipped after that
        for i in range(x.n(100, 4000)):
            x.add([misuse_case(r)])

    def misuse_case(r, n=2):
        o = DOpt(maxdepth=r.choice([1, 2, 3]), maxlen=r.choice([5, 40, 90]))
        ns = [doc(r, o) for _ in range(r.choice([1, 2]))]
        d = join(ns) + b"\xc0" * 4
        p = sum([read_ops(r, n_, ROpt(typed=r.random() < .4)) for n_ in ns], [])[:60]
        ins = ["tag", "tag", "discard", "peek", "bytes 0", "bytes 1", "skip 1", "skip 0", "skip 300", "inplace 1", "done array", "done map", "done str", "done bin", "done ext", "remain", "enil", "utf8 1", "cstr 5 1",
               "ballocz 2", "c array", "l str", "done str type"]
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(p) + 1)
            k = r.random()
            if k < .4 or not p: p = p[:i] + [r.choice(ins)] + p[i:]
            elif k < .65: p = p[:i] + p[i+1:]
            elif k < .75: p = p[:i]
            elif k < .85 and i < len(p): p = p[:i] + [p[i]] + p[i:]
            elif i + 1 < len(p): p = p[:i] + [p[i+1], p[i]] + p[i+2:]
        return rcase(d, p + ["tag", "bytes 1"][:r.randrange(3)], MEM + streams(r, len(d), n - 1), correct=False)

    @check("C10", level="model_checking")
    def c10(x):
        r = x.r
        def use(ctx, out):
            from .registry import progs_of
            for p in progs_of(out):
                ctx.add([rcase(bytes.fromhex(p[0]), p[1:] + ["tag", "bytes 1"][:r.randrange(3)], [r.choice(MEM + [dict(src="stream", buf=32, ch="1", skip=1)])], correct=False)])
        x.models.append(dict(module="MCMisuseR.tla", env=dict(MC_DEPTH=str(x.n(4, 6))), workers=1, use=use))
        for i in range(x.n(900, 30000)): x.add([misuse_case(r)])
        for i in range(x.n(70, 2000)):       # proper traversals are never flagged
            n = doc(r, DOpt(maxdepth=r.choice([2, 3, 5]), maxlen=30, width=3))
            p = read_ops(r, n, ROpt(typed=r.random() < .6))
            x.add([rcase(n.enc(), p[:200] if len(p) <= 200 else ["discard"], [r.choice(MEM + streams(r, 30, 1))])])

    @check("C11")
    def c11(x):
        r = x.r
        def small(d):
            x.add([rcase(d, r.choice([["discard", "flag data"], ["tag"] * (len(d) + 1) + ["flag data"]]), [r.choice(MEM + streams(r, len(d), 2))], correct=None)])
            from .gen_t import tcase, DATA, pools, tstreams
            x.add([tcase(d, ["parse", "root 0"], [r.choice(DATA + pools(3) + tstreams(r, 1))])])
        strings_of_model(x, small, 2)
        # every prefix of small documents
        for i in range(x.n(12, 200)):
            ns = [doc(r, DOpt(maxdepth=2, maxlen=20, width=3))]
            d = join(ns)[:100]
            ps = [read_ops(r, ns[0], ROpt(typed=False, pdisc=0))[:60], read_ops(r, ns[0], ROpt(pdisc=0))[:60], ["discard"]]
            for k in range(len(d) + 1):
                if not x.thorough and len(d) > 30 and r.random() > 30 / len(d): continue
                p = ps[k % 3] if not x.thorough else r.choice(ps)
                x.add([rcase(d[:k], p, [r.choice(MEM + streams(r, k, 1) + files(r, 1))])])
                if k % 4 == 0: x.add([rcase(d[:k], ["discard"], files(r, 1) + [dict(src="stream", buf=32, skip=1, ch="5")])])
        # skipping and reading past the end from each kind of source
        for n in (1, 2, 31, 32, 33, 40, 64, 70, 71, 100, 4096, 4097, 5000):
            for short in (1, 2, n // 2, n):
                if short < 1: continue
                d = len_hdr(r, r.choice(["bin", "str"]), n) + b"a" * (n - short)
                t = "str" if d[0] not in (0xc4, 0xc5, 0xc6) else "bin"
                envs = MEM + streams(r, len(d), 3) + [dict(src="file", close=1, seek=s, unbuf=u) for s in (0, 1) for u in (0, 1)] + [dict(src="stream", buf=33, skip=1, ch="9"), dict(src="stream", buf=32, skip=1, ch="32")]
                for o in ("skip %d" % n, "bytes %d" % n, "balloc %d" % n, "utf8 %d" % n, "cstr %d %d" % (n + 1, n), "inplace %d" % n):
                    if r.random() < (1 if x.thorough or o[0] == "s" else .35): x.add([rcase(d, ["tag", o, "done " + t], envs if o[0] == "s" else [r.choice(envs), r.choice(envs)])])
                x.add([rcase(d, ["discard"], envs)])
                if t == "str": x.add([rcase(d, [r.choice(["a cstr 9999", "s cstr 9999", "b str_buf 9999", "m str r61*%d" % n, "a utf8_cstr 9999", "enumopt x61", "keycstr x61"])], [r.choice(envs)])])
                else: x.add([rcase(d, [r.choice(["a bin 9999", "b bin_buf 9999", "b bin_size_buf %d" % n])], [r.choice(envs)])])
        # mutated and random bytes under arbitrary reads
        for i in range(x.n(150, 8000)):
            d = bytearray(join([doc(r, DOpt(maxdepth=2, maxlen=20))]))[:200]
            for _ in range(r.choice([1, 2, 5])):
                k = r.random()
                if d and k < .6: d[r.randrange(len(d))] = r.choice([0xc1, 0xff, 0xdd, 0xdf, 0xdb, 0xc6, 0xc9, 0x9f, 0x8f, 0xbf, r.randrange(256)])
                elif k < .8: d[r.randrange(len(d) + 1):0] = bytes([r.randrange(256)])
                elif d: del d[r.randrange(len(d))]
            x.add([rcase(bytes(d), r.choice([["discard"] * 3, tail(r, 8), ["tag"] * 9, ["discard", "remain"]]), [r.choice(MEM + streams(r, len(d), 1) + files(r, 1))], correct=None)])
        for b in (b"\xdd\xff\xff\xff\xff", b"\xdf\xff\xff\xff\xff", b"\xdb\xff\xff\xff\xff", b"\xc6\xff\xff\xff\xff", b"\xc9\xff\xff\xff\xff\x05", b"\xdf\x80\x00\x00\x00"):
            for e in (b"", b"\xc0", b"\xc0" * 50):
                for o in TYPED + ["tag", "discard"]:
                    if r.random() < (1 if x.thorough else .25): x.add([rcase(b + e, [o] + ["bytes 4", "skip 4294967295", "skip 9999999"][r.randrange(3):], MEM + streams(r, 9, 1), correct=None)])

    @check("C12")
    def c12(x):
        r = x.r
        x.models.append(dict(module="MCReal.tla", env=dict(MC_DENSE=str(x.n(0, 1))), timeout=x.n(400, 3000)))
        vals = sorted(set(INTS + NEGS + UBIG) | {2**k + e for k in (7, 8, 15, 16, 31, 32, 53, 62, 63) for e in (-1, 0, 1)} | {-2**k + e for k in (5, 7, 15, 31, 53, 62, 63) for e in (-1, 0, 1) if -2**k + e >= -2**63})
        vals = [v for v in vals if -2**63 <= v < 2**64]
        E = [dict(src="mem")]
        # every integer read of every boundary value, in every encoding; several values per program
        for u, w in UT + ST:
            lim = (0, 2**w - 1) if (u, w) in UT else (-2**w, 2**w - 1)
            for v in vals:
                for h in int_encs(v):
                    ok = lim[0] <= v <= lim[1]
                    if not x.thorough and r.random() > (.3 if ok else .12): continue
                    ops = ["n " + u]
                    if ok:
                        ops += ["n %s_range %d %d" % (u, v, v), "n %s_max %d" % (u, max(v, 0) if v >= 0 else lim[1])] if v >= 0 else ["n %s_range %d %d" % (u, v, v)]
                        d = h * (len(ops) + 1)
                        lo = min(v + 1, lim[1]); hi = max(lo, lim[1])
                        x.add([rcase(d, ops + [r.choice(["n %s_range %d %d" % (u, lo, hi), "n %s_range %d %d" % (u, lim[0], max(lim[0], v - 1)), "n %s_max %d" % (u, max(0, v - 1))])], E)])
                    else: x.add([rcase(h, [r.choice(["n " + u, "n %s_range %d %d" % (u, lim[0], lim[1]), "n %s_max %d" % (u, lim[1])])], E)])
        for v in vals:
            for h in int_encs(v):
                if not x.thorough and r.random() > .5: continue
                m = "uint_match %d" % v if v >= 0 else "int_match %d" % v
                x.add([rcase(h * 2, ["n " + m, "n " + r.choice(["uint_match %d" % ((v + 1) % 2**64), "int_match %d" % (v - 1 if -2**63 < v < 2**63 else 7), "int_match %d" % ((v + 2**63) % 2**64 - 2**63)])], E)])
                x.add([rcase(h * 5, ["f float", "f double", r.choice(["f float_range 0xdf000000 0x5f800000", "f double_range 0xc3e0000000000000 0x43f0000000000000"]), floats_any(r), floats_any(r)], E)])
        for _ in range(x.n(300, 20000)):
            v = r.choice([r.choice(vals), r.randrange(-2**63, 2**64), r.randrange(-300, 300)])
            h = r.choice(int_encs(v))
            x.add([rcase(h * 3, [num_any(r, v) for _ in range(3)], [r.choice(E + streams(r, 9, 1))])])
        fl = F32 + [0x7fc00000, 0x7f800001, 0xff800000, 0x00000001, 0x007fffff, 0x4b000001, 0x5f7fffff, 0x80000000, 0x3dcccccd] + [r.randrange(2**32) for _ in range(x.n(20, 600))]
        fd = F64 + [0x7ff8 << 48, (0x7ff << 52) + 1, 0xfff << 52, 1, 0x47efffffe0000000, 0x47efffffefffffff, 0x47effffff0000000, 0x47f0000000000000, 0x47f8000000000000, 0x380fffffffffffff, 0x36a0000000000000, 0x36a0000000000001,
                    0x3690000000000000, 0x3fb999999999999a, 1 << 63, 0x40f0000010000000, 0x40f0000030000000] + [r.randrange(2**64) for _ in range(x.n(20, 600))] + [(r.randrange(0x370, 0x480) << 52) + r.randrange(2**52) for _ in range(x.n(30, 900))]
        for f in fl:
            h = b"\xca" + be(f, 4)
            for o in ["f float", "f double", "f float_strict", "f double_strict", floats_any(r), floats_any(r)]: x.add([rcase(h, [o], E)])
        for f in fd:
            h = b"\xcb" + be(f, 8)
            for o in ["f float", "f double", "f float_strict", "f double_strict", floats_any(r), floats_any(r)]: x.add([rcase(h, [o], E)])
        for lo, hi in ((0x3f800000, 0x40000000), (0xff800000, 0x7f800000), (0x80000000, 0)):
            for f in fl[:40]: x.add([rcase(b"\xca" + be(f, 4), ["f float_range 0x%x 0x%x" % (lo, hi)], E)])
        for lo, hi in ((0x3ff << 52, 0x4 << 60), (0xfff << 52, 0x7ff << 52), (1 << 63, 0)):
            for f in fd[:40]: x.add([rcase(b"\xcb" + be(f, 8), ["f double_range 0x%x 0x%x" % (lo, hi)], E)])
        for f in fl[:8]: x.add([rcase(b"\xca" + be(f, 4), ["f raw_float"], E)])
        for f in fd[:8]: x.add([rcase(b"\xcb" + be(f, 8), ["f raw_double"], E)])
        others = [b"\xc0", b"\xc2", b"\xc3", b"\xc4\x01a", b"\xa1a", b"\xa0", b"\x91\x01", b"\x81\x01\x02", b"\x90", b"\x80", b"\xca\x3f\x80\x00\x00", b"\xcb\x3f\xf0" + bytes(6), b"\x01", b"\x00", b"\xd0\x01", b"\xd0\xff", b"\xff", b"\xcc\x01"]
        for d in others:
            for t in ["n " + t for t, _ in UT + ST] + ["n u8_range 3 9", "n i16_range -4 -2", "n int_max 7", "n uint_match 1", "n int_match -1", "n int_match 1", "f float", "f double", "f float_strict", "f double_strict",
                      "f float_range 0x3f800000 0x40000000", "f double_range 0x3ff0000000000000 0x4000000000000000", "ebool", "etrue", "efalse", "enil", "f raw_float", "f raw_double"]:
                x.add([rcase(d, [t], E)])

    @check("C13")
    def c13(x):
        r = x.r
        E = lambda n: [r.choice(MEM + streams(r, n, 1))]
        for n in (0, 1, 2, 15, 16, 17, 31, 32, 33, 255, 256, 65535, 65536):
            for k in ("str", "bin", "ext", "array", "map"):
                for w in range(4):
                    h = len_hdr(r, k, n, 5)
                    small = n <= 300
                    ops = []
                    for a in {n, n + 1, max(0, n - 1), 0, 2**32 - 1}:
                        if k in ("array", "map"):
                            ops += ["c %s_max %d" % (k, a), "c %s_match %d" % (k, a), "c %s_range %d %d" % (k, min(a, n), a), "c %s_range %d %d" % (k, a, 2**32 - 1), "c %s_max_or_nil %d" % (k, a)]
                            if k == "array" and a < 10**6: ops += ["aalloc arr %d" % a, "aalloc nil %d" % a]
                        else:
                            ops += ["l %s_max %d" % (k, a), "l %s %d" % ({"str": "str_length", "bin": "bin_size", "ext": "ext_size"}[k], a)]
                    ops += ["c %s" % k, "c %s_or_nil" % k] if k in ("array", "map") else ["l " + k]
                    for o in ops:
                        if x.thorough or r.random() < .35: x.add([rcase(h + b"a" * (n if small else 0), [o, "flag data"], E(n))])
        for d in (b"\xc0", b"\x01", b"\xa1a", b"\xc4\x01a", b"\xd4\x05a", b"\x91\xc0", b"\x81\xc0\xc0", b"\xc3", b"\xd6\xff" + bytes(4), b"\xcc"):
            for t in TYPED: x.add([rcase(d, [t, "flag data"], MEM)])
        for i in range(x.n(250, 8000)):
            n = r.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 30, 31, 32, 33, 40, 255, 256])
            k = r.choice(["text", "text", "nul", "raw"])
            s = mk_str(r, n, k)
            a = [n, n, n + 1, max(0, n - 1), n + 5]
            ops = ["b str_buf %d", "b utf8 %d", "s cstr %d", "s utf8_cstr %d", "a cstr %d", "a utf8_cstr %d"]
            for o in r.sample(ops, 3): x.add([rcase(s.enc() + b"\xc0", [o % (r.choice(a) + (o[0] != "b")), "enil"], E(n))])
            b = Node("bin", len_hdr(r, "bin", n), n, s.body)
            for o in r.sample(["b bin_buf %d", "b bin_size_buf %d", "a bin %d"], 2): x.add([rcase(b.enc() + b"\xc0", [o % r.choice(a), "enil"], E(n))])
            xt = Node("ext", len_hdr(r, "ext", n, r.choice([5, -1, -128, 127])), n, s.body)
            for o in ("b ext_buf %d", "a ext %d"): x.add([rcase(xt.enc() + b"\xc0", [o % r.choice(a), "enil"], E(n))])
            if n <= 40:
                m = bytearray(s.body)
                if m and r.random() < .5: m[r.randrange(n)] ^= r.choice([1, 0x80, 0x20, 0xff])
                if r.random() < .2: m = m[:-1]
                x.add([rcase(s.enc() + b"\xc0", ["m str " + hexs(bytes(m)), "enil"], E(n))])
                if b"\0" not in m: x.add([rcase(s.enc() + b"\xc0", ["m cstr " + hexs(bytes(m)), "enil"], E(n))])
        # enumerations and keys: maps of keys of every kind, some repeated, some unknown
        pool = [b"", b"a", b"b", b"ab", b"abc", b"key", b"\xc3\xa9", b"abcdefghijklmnopqrstuvwxyz0123456", b"\xff", b"a" * 60]
        hx = lambda ks: ",".join(hexs(k) for k in ks)
        for i in range(x.n(300, 8000)):
            ks = r.sample(pool, r.randrange(1, 6)); r.shuffle(ks)
            if r.random() < .2:         # long lists
                ks = r.sample(pool + [b"k%d" % j for j in range(80)], r.choice([8, 9, 16, 17, 33, 65])); r.shuffle(ks)
            n = r.randrange(0, 6)
            d, p = b"", ["keynew"]
            for _ in range(n):
                q = r.random()
                if q < .6: kn = Node("str", b"", 0); body = r.choice(ks if r.random() < .7 else pool); kd = len_hdr(r, "str", len(body)) + body
                elif q < .7: kd = r.choice(int_encs(r.choice([0, 1, 2, 5, -1, 2**63])))
                else: kd = doc(r, DOpt(maxdepth=2, maxlen=20, width=2)).enc()
                d += kd + b"\x05"
                p += ["keycstr " + hx(ks), "n u8"]
            x.add([rcase(d, p, E(len(d)))])
            d, p = b"", ["keynew"]
            lim = r.choice([1, 2, 5, 6, 33, 256])
            for _ in range(n):
                q = r.random()
                kd = r.choice(int_encs(r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 32, 33, 255, 256, -1, 2**32, 2**32 + 1, 2**63, 2**64 - 1]))) if q < .8 else doc(r, DOpt(maxdepth=2, maxlen=20, width=2)).enc()
                d += kd + b"\xc3"
                p += ["keyuint %d" % lim, "etrue"]
            x.add([rcase(d, p, E(len(d)))])
            if i % 3 == 0:      # several lists, of the same length in another order or with other strings
                base = r.sample([b"a", b"b", b"c", b"ab", b"", b"bc"], r.choice([2, 3, 4])); d, p = b"", []
                for _ in range(r.choice([3, 6, 10])):
                    l = list(base); r.shuffle(l)
                    if r.random() < .3: l[r.randrange(len(l))] = b"zz"
                    body = r.choice(l); d += len_hdr(r, "str", len(body)) + body
                    if r.random() < .3: p += ["keynew", "keycstr " + hx(l)]
                    else: p.append(r.choice(["enum ", "enumopt "]) + hx(l))
                x.add([rcase(d, p, E(len(d)))])
            body = r.choice(ks if r.random() < .7 else pool)
            kd = len_hdr(r, "str", len(body)) + body if r.random() < .8 else doc(r, DOpt(maxdepth=1, maxlen=20, width=2)).enc()
            x.add([rcase(kd + b"\xc0", ["enum " + hx(ks), "enil"], E(9)), rcase(kd + b"\xc0", ["enumopt " + hx(ks), "enil"], E(9))])
        x.add([rcase(b"\x01", ["keyuint 0"], MEM, correct=False)])
        def keys(d):
            n = d[0] & 15
            k = r.choice(["keycstr x62,x61,x", "keycstr x61,x", "keycstr x", "keycstr x61", "keyuint 2", "keyuint 1", "keyuint 256"])
            x.add([rcase(d + b"\xc0", ["keynew", "c map"] + [k, "discard"] * n + ["done map", "enil"], E(len(d)))])
        maps_of_model(x, keys, 200)

    @check("C20")
    def c20(x):
        r = x.r
        for i in range(x.n(260, 9000)):
            n = r.choice([0, 1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 40, 70, 255, 256, 300, 4096, 4097, 5000])
            k = r.choice(["text", "text", "nul", "raw"])
            s = mk_str(r, n, k)
            envs = lambda: [r.choice(MEM + streams(r, n, 2) + files(r, 1)), r.choice(streams(r, n, 1) + [dict(src="memb", slack=2)])]
            cut = r.choice([0, 0, 0, 1, n // 2])
            d = s.enc(); d = d[:len(d) - min(cut, n)]
            caps = [n + 1, n + 1, n, n + 2, 1, n + 100]
            full = cut == 0 or n == 0
            ops = ["cstr %d %d" % (r.choice(caps), n), "utf8cstr %d %d" % (r.choice(caps), n), "balloc %d" % n, "ballocz %d" % n, "bytes %d" % n, "utf8 %d" % n, "inplace %d" % n, "utf8inplace %d" % n]
            for o in r.sample(ops, 3):
                if o.split(" ")[-2:] and o.startswith(("cstr", "utf8cstr")) and int(o.split(" ")[1]) == 0: continue
                x.add([rcase(d + (b"\xc0" if full else b""), ["l str", o, "done str", "enil"], envs())])
            for o in r.sample(["s cstr %d", "s utf8_cstr %d", "a cstr %d", "a utf8_cstr %d", "b str_buf %d", "b utf8 %d"], 3):
                x.add([rcase(d + (b"\xc0" if full else b""), [o % max(1, r.choice(caps)), "enil"], envs())])
            if n:
                b = Node("bin", len_hdr(r, "bin", n), n, s.body); e = Node("ext", len_hdr(r, "ext", n, r.choice([1, -5, 127, -128])), n, s.body)
                for nd in (b, e):
                    dd = nd.enc(); dd = dd[:len(dd) - cut]
                    for o in r.sample(["a %s %%d" % nd.k, "b %s_buf %%d" % nd.k], 1): x.add([rcase(dd + (b"\xc0" if full else b""), [o % r.choice([n, n, n - 1, n + 1, 0, 10000]), "enil"], envs())])
        for n in (0, 1, 5):
            for o in ("a ext %d", "b ext_buf %d", "a bin %d", "b bin_buf %d"):
                for c in (0, n, n + 1):
                    k = o[2:5]
                    x.add([rcase(len_hdr(r, k, n, 9) + b"\0" * n, [o % c], MEM + streams(r, n, 1))])
        # every length around the sizes that matter, with just enough room and with one byte less
        lens = (0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000)
        from .gen_t import tcase, tstreams
        for n in lens:
            body = bytes(0x61 + i % 26 for i in range(n)); s = len_hdr(r, "str", n) + body; b = len_hdr(r, "bin", n) + body
            x.add([tcase(s + b"\xc0", ["parse", "root 0", "nc utf8 0 %d" % n, "nc data 0 %d" % n, "nc cstr 0 %d" % (n + 1), "nc utf8_cstr 0 %d" % (n + 1), "na data 0 %d" % n, "na cstr 0 %d" % (n + 1), "na utf8_cstr 0 %d" % (n + 1)],
                         [dict(src="data"), r.choice(tstreams(r, 1))], needs=("malloc",))])
            low = [("nc utf8", n - 1), ("nc data", n - 1), ("nc cstr", n), ("nc utf8_cstr", n), ("na data", n - 1), ("na cstr", n), ("na utf8_cstr", n)]
            for o, c in low:
                if c > 0 or (c == 0 and "cstr" not in o): x.add([tcase(s, ["parse", "root 0", "%s 0 %d" % (o, c)], [dict(src="data")], needs=("malloc",) if o[:2] == "na" else ())])
            for o, c in (("s cstr", n + 1), ("s utf8_cstr", n + 1), ("a cstr", n + 1), ("a utf8_cstr", n + 1), ("b str_buf", n), ("b utf8", n), ("cstr", n + 1), ("utf8cstr", n + 1)):
                for k in (c, c - 1):
                    if k < 1: continue
                    p = ["%s %d" % (o, k), "enil"] if " " in o else ["l str", "%s %d %d" % (o, k, n), "done str", "enil"]
                    x.add([rcase(s + b"\xc0", p, [r.choice(MEM + streams(r, n, 2))])])
            for o in ("a bin", "b bin_buf"):
                for k in (n, n - 1):
                    if k >= 0: x.add([rcase(b + b"\xc0", ["%s %d" % (o, k), "enil"], [r.choice(MEM + streams(r, n, 2))])])
            # one bad byte, at either end
            if n:
                for i in {0, n - 1, r.randrange(n)}:
                    for v in (0, 0xc0, 0xff):
                        d = len_hdr(r, "str", n) + body[:i] + bytes([v]) + body[i + 1:]
                        o, c = r.choice(low); c += 1
                        x.add([tcase(d, ["parse", "root 0", "%s 0 %d" % (o, max(c, 1))], [dict(src="data")], needs=("malloc",))])
                        o = r.choice(["s cstr", "s utf8_cstr", "a cstr", "a utf8_cstr", "b utf8"])
                        x.add([rcase(d + b"\xc0", ["%s %d" % (o, n + 1), "enil"], [r.choice(MEM + streams(r, n, 1))])])
        # no room at all
        for n in (0, 1, 4):
            s = len_hdr(r, "str", n) + b"x" * n
            for o in ("a cstr 0", "a utf8_cstr 0"): x.add([rcase(s + b"\xc0", [o, "enil"], MEM + streams(r, n, 1))])
            for o in ("na cstr 0 0", "na utf8_cstr 0 0"): x.add([tcase(s, ["parse", "root 0", o], [dict(src="data")], needs=("malloc",))])
        # in place where the reader recommends it: only if it fits
        for n in (0, 1, 2, 3, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 8192):
            d = len_hdr(r, "bin", n) + b"b" * n
            for p in (["l bin", "should %d" % n], ["should %d" % n, "tag"]):
                x.add([rcase(d + b"\xc0", p + ["inplace %d" % n, "done bin", "enil"], MEM + streams(r, n, 2, bufs=(32, 33, 64, 100, 512, 8192)) + files(r, 1))])
        # a failed copy leaves an empty string, whatever went wrong
        for what in ("too_big", "short", "nul", "utf8", "type", "memory"):
            for o in ("s cstr 8", "s utf8_cstr 8", "cstr 8 %d", "utf8cstr 8 %d", "a cstr 8", "a utf8_cstr 8"):
                body = {"too_big": b"x" * 12, "short": b"abcd", "nul": b"ab\0d", "utf8": b"ab\xc0\x80", "type": b"abcd", "memory": b"abcd"}[what]
                d = len_hdr(r, "str", len(body)) + body
                if what == "short": d = d[:-2]
                if what == "type" and "%d" not in o: d = len_hdr(r, "bin", 4) + body
                p = [o] if "%d" not in o else ["l str", o % len(body), "done str"]
                x.add([rcase(d, p, MEM + streams(r, 9, 3) + ([dict(src="mem", af=1), dict(src="mem", af=2)] if what == "memory" else []))])

    @check("C24")
    def c24(x):
        r = x.r
        x.models.append(dict(module="MCWire.tla"))
        secs = sorted({0, 1, 2, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**33, 2**34 - 1, 2**34, 2**34 + 1, 2**62, 2**63 - 1, -1, -2, -2**31, -2**32, -2**34, -2**63, -2**63 + 1} | {r.randrange(-2**63, 2**63) for _ in range(x.n(20, 1500))} | {r.randrange(0, 2**35) for _ in range(x.n(20, 1500))})
        nss = [0, 1, 2, 255, 999999998, 999999999, 1000000000, 1000000001, 2**30 - 1, 2**30, 2**31, 2**32 - 1]
        from .gen_w import wcase
        rd = lambda n: r.choice([["ets"], ["etst"], ["tag", "ts %d" % n], ["l ext", "ts %d" % n]])
        edges = {k + d for k in (0, 2**31, 2**32, 2**33, 2**34, 2**63 - 2) for d in (-2, -1, 0, 1) if k + d >= 0} | {-1, -2**63}
        secs = sorted(set(secs) | edges)
        for s in secs:
            for ns in nss + [r.randrange(10**9), r.randrange(10**9)]:
                if not x.thorough and not (s in edges and ns in (0, 1, 999999999, 1000000000)) and r.random() > .45: continue
                x.add([wcase(["ts %d %d" % (s, ns)], [dict(sink="fixed", cap=40)])])
                ds = [mk_ts(r, s, ns, False)]
                if ns < 2**30 and 0 <= s < 2**34: ds.append(Node("ext", b"\xd7\xff", 8, be(ns << 34 | s, 8), x=-1))
                if ns == 0 and 0 <= s < 2**32: ds.append(Node("ext", b"\xd6\xff", 4, be(s, 4), x=-1))
                for d in ds:
                    h = d.hdr if d.v != 8 or r.random() < .5 else b"\xc7\x08\xff"
                    # the forms other than fixext are read too
                    x.add([rcase(h + d.body, rd(d.v), [r.choice(MEM + streams(r, 12, 1))])])
        for n in range(0, 20):
            for xt in (-1, 0, 1, 5, -2, 127, -128):
                for p in (["ets"], ["etst"]):
                    x.add([rcase(len_hdr(r, "ext", n, xt) + bytes(n), p, MEM)])
            x.add([rcase(len_hdr(r, "ext", n, -1) + bytes(n), ["tag", "ts %d" % n], MEM + streams(r, 9, 1))])
        for d in (b"\xc0", b"\x05", b"\xc4\x04abcd", b"\xa4abcd", b"\x90", b"\x80", b"\xc3", b"\xcb" + bytes(8), b"\xc1"):
            for p in ("ets", "etst"): x.add([rcase(d, [p], MEM)])
        for n in (4, 8, 12):
            for k in range(n + 3):
                d = (len_hdr(r, "ext", n, -1, True) + bytes(n))[:k]
                for p in (["ets"], ["etst"], ["tag", "ts %d" % n]): x.add([rcase(d, p, [r.choice(MEM + streams(r, 9, 1))])])
