"""Text checks, debug text, tag order."""
import random, struct
from .core import Case
from .gen_w import hexs, U8S, INTS, NEGS, UBIG, F32, F64, wcase, utf8s
from .gen_r import *
from .gen_t import tcase, pools, tstreams, tfiles, DATA
from .reg_r import join

REP = bytes.fromhex("00017f808f909fa0bfc0c1c2dfe0e1ecedeeeff0f1f3f4f5ff")
def batch(xs, k):
    xs = list(xs)
    return [xs[i:i + k] for i in range(0, len(xs), k)]
def mcase(prog, need=()):
    return Case("M", prog, [{}], {"correct": True}, need)

def corrupt_text(r, b):
    """well-formed text with one defect, or none"""
    b = bytearray(b)
    i = r.randrange(len(b) + 1)
    j = r.random()
    if j < .15: return bytes(b)
    if j < .5: b[i:i] = bytes.fromhex(r.choice(["80", "bf", "c0", "c080", "c1bf", "e08080", "e09fbf", "eda080", "edbfbf", "f0808080", "f08fbfbf", "f4908080", "f5808080", "ff", "00", "c3", "e282", "f09f98", "ed9fbf", "f48fbfbf"]))
    elif j < .8 and b: b[i % len(b)] = r.randrange(256)
    elif b: del b[i % len(b)]
    return bytes(b)

def nest(r, n):
    d = mk_int(r, 5)
    for i in range(n): d = mk_array(r, [d]) if r.random() < .5 else mk_map(r, [mk_int(r, i), d])
    return d

PF64 = [0x7fefffffffffffff, 0xffefffffffffffff, 0x4341c37937e08000, 0x43e0000000000000, 0x3eb0c6f7a0b5ed8d, 0x3ea0c6f7a0b5ed8d, 0x3fdfffffffffffff, 0x3ff8000000000000, 0x4024000000000001,
        0x3e112e0be826d695, 0x7fe1ccf385ebc8a0, 0x41dfffffffc00000, 0x40934a456d5cfaad, 0xbf50624dd2f1a9fc, 0x000fffffffffffff, 0x0010000000000000, 0x40f86a0000000000, 0x40f869ffffffef39, 0x3fb999999999999a]
PF32 = [0x7f7fffff, 0xff7fffff, 0x42280000, 0x3d4ccccd, 0x49742400, 0x358637bd, 0x33d6bf95, 0x00000001, 0x4b7fffff, 0x5f000000]

def register(check):

    @check("C19")
    def c19(x):
        r = x.r
        x.models.append(dict(module="MCUtf8.tla", env=dict(MC_LEN=str(x.n(4, 5)))))
        t = lambda b: "text " + hexs(b)
        x.add([mcase([t(b"")] + [t(bytes([a])) for a in range(256)])])
        two = [bytes([a, b]) for a in range(256) for b in range(256)]
        x.add([mcase([t(s) for s in g]) for g in batch(two, 512)])
        three = [bytes([a, b, c]) for a in REP for b in REP for c in REP]
        four = [bytes([a, b, c, d]) for a in REP for b in REP for c in REP for d in REP]
        if x.thorough:
            three += [bytes([a, b, c]) for a in range(0xc0, 256) for b in range(0, 256, 1) for c in (0, 0x7f, 0x80, 0xbf, 0xc0)]
            four += [bytes([a, b, c, d]) for a in range(0xf0, 0xf6) for b in range(256) for c in (0x7f, 0x80, 0xbf, 0xc0) for d in (0x7f, 0x80, 0xbf, 0xc0)]
        else:
            four = r.sample(four, 4000) + [b"\xf0" + bytes([b, 0x80, 0x80]) for b in range(256)] + [b"\xf4" + bytes([b, 0xbf, 0xbf]) for b in range(256)]
        x.add([mcase([t(s) for s in g]) for g in batch(three + four, 512)])
        # longer strings, a defect anywhere
        longer = []
        for _ in range(x.n(3000, 60000)):
            n = r.choice([3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 66, 100])
            longer.append(corrupt_text(r, bytes.fromhex(utf8s(r, n)[1:])))
        for w in ("c3a9", "e282ac", "f09f9880", "00", "80", "eda080", "c3", "f09f98"):      # at every offset of a block
            for i in range(0, 70, x.n(3, 1)): longer += [b"a" * i + bytes.fromhex(w) + b"b" * 5, b"a" * i + bytes.fromhex(w)]
        x.add([mcase([t(s) for s in g]) for g in batch(longer, 256)])
        # through whole messages, across buffers
        for _ in range(x.n(160, 3000)):
            n = r.choice([5, 20, 31, 40, 100, 250])
            s = corrupt_text(r, bytes.fromhex(utf8s(r, n)[1:]))
            z = len(s)
            d = len_hdr(r, "str", z) + s + b"\xc0"
            p = r.choice([["tag", "utf8 %d" % z, "done str"], ["tag", "utf8cstr %d %d" % (z + 1, z), "done str"], ["tag", "cstr %d %d" % (z + 1, z), "done str"],
                          ["b utf8 %d" % z], ["s utf8_cstr %d" % (z + 1)], ["s cstr %d" % (z + 1)], ["a utf8_cstr %d" % (z + 1)], ["a cstr %d" % (z + 1)], ["tag", "utf8inplace %d" % z, "done str"]])
            x.add([rcase(d, p + ["enil"], MEM + streams(r, z, 3, bufs=(300, 4096)) + files(r, 1) if "utf8inplace" in p[-2:][0] else MEM + streams(r, z, 3) + files(r, 1))])
            p = [r.choice(["nc utf8 0 %d" % z, "nc utf8_cstr 0 %d" % (z + 1), "nc cstr 0 %d" % (z + 1), "na utf8_cstr 0 %d" % (z + 1), "na cstr 0 %d" % (z + 1), "nu utf8 0", "nu utf8_cstr 0"])]
            x.add([tcase(d, ["parse", "root 0"] + p + ["try"], r.sample(DATA + pools(2) + tstreams(r, 2), 2))])
            w = [r.choice(["utf8 ", "utf8cstr ", "utf8cstrnil "] if b"\0" not in s else ["utf8 "]) + hexs(s)]
            x.add([wcase(w, [dict(sink="fixed", cap=400), dict(sink="grow"), dict(sink="flush", cap=40)])])

    @check("C26")
    def c26(x):
        r = x.r
        N = ("dprint",)
        def add(d, ns=()):
            sizes = sorted(set([1, 2, 3] + list(ns) + [r.choice([4, 8, 20, 64, 1023, 1024, 1025, 5000])]))
            x.add([mcase(["print %s %s" % (hexs(d), " ".join(map(str, sizes)))], N)])
        # every first byte, complete and cut
        for b0 in range(256):
            from .reg_r import HDRLEN
            n = HDRLEN.get(b0, 0)
            for p in {bytes(n), bytes(max(0, n - 1)) + b"\x02"[:n], bytes(r.randrange(256) for _ in range(n))}:
                d = bytes([b0]) + p
                add(d); add(d + b"\x01\xc0\xa1a" + bytes(40))
                if n: add(d[:r.randrange(1, n + 1)])
        for v in INTS + NEGS + UBIG:
            for e in int_encs(v)[:x.n(2, 20)]: add(e)
        add(join([mk_array(r, [mk_int(r, r.randrange(-2**63, 2**64)) for _ in range(30)])]))
        for v in F64 + PF64: add(b"\xcb" + be(v, 8))
        for v in F32 + PF32: add(b"\xca" + be(v, 4))
        for _ in range(x.n(60, 3000)):
            e = r.choice([r.randrange(2047), r.randrange(1000, 1100), r.randrange(1003, 1025), 1023 - 1074 + 1100])
            add(b"\xcb" + be(r.randrange(2) << 63 | e << 52 | r.choice([r.randrange(2**52), 0, 1, 2**51, 2**52 - 1, r.randrange(64) << 46]), 8))
            add(b"\xca" + be(r.randrange(2) << 31 | r.choice([r.randrange(255), r.randrange(100, 155)]) << 23 | r.randrange(2**23), 4))
        for _ in range(x.n(12, 300)):       # ties at the last decimal place
            k = r.randrange(2**20)
            add(b"\xcb" + struct.pack(">d", k / 2**7)); add(b"\xcb" + struct.pack(">d", -(2 * k + 1) / 2**7))
        for c in range(256): add(b"\xa3a" + bytes([c]) + b"b")
        for n in range(0, 20): add(b"\xc4" + bytes([n]) + bytes(r.randrange(256) for _ in range(n))); add(b"\xc7" + bytes([n, r.randrange(256)]) + bytes(r.randrange(256) for _ in range(n)))
        # documents of every shape
        for _ in range(x.n(150, 4000)):
            o = DOpt(maxdepth=r.choice([1, 2, 3, 5]), maxlen=r.choice([5, 40, 300]))
            nd = doc(r, o); d = nd.enc()
            if len(d) > 2500: continue
            L = len(d)
            add(d, [L, 2 * L, r.randrange(1, 4 * L + 2)])
            if r.random() < .3: add(d + bytes(r.randrange(256) for _ in range(r.choice([1, 2, 300]))))
            if r.random() < .5: add(d[:r.randrange(len(d))])
            if r.random() < .5:
                m = bytearray(d)
                m[r.randrange(len(m))] = r.choice([0xc1, 0xdd, 0xdf, 0xdb, 0xc6, 0xc9, 0x90, 0xff, 0, 0xd4])
                add(bytes(m))
        # longer than the printer's own buffer, at every alignment
        for n in list(range(1000, 1050, x.n(7, 1))) + [2040, 2047, 2048, 2049, 5000]:
            b = bytes(r.choice(b"abc\n\"\\\0") for _ in range(n))
            d = b"\xda" + be(n, 2) + b
            add(d, [n, n + 2, n + 3, 1024, 1025]); add(b"\x93\x01" + d + b"\xc0", [1024, 1023])
            add(b"\xda" + be(n, 2) + b"z" * n, [n + 1, n + 2, n + 3, n + 4])
        for n in (5, 60, 300): add(nest(r, n).enc())
        for n in (0, 1, 15, 16, 17, 300): add(mk_array(r, [mk_int(r, i) for i in range(n)]).enc()); add(mk_map(r, [mk_int(r, i) for i in range(2 * n)]).enc())
        # sizes just around the text
        for d in (b"\x93\x01\x02\x03", b"\xa5hello", b"\xc0", b"\x82\xa1a\xc3\x05\x90", b"\xa3a\0b", b"\x01\x02", b"\x92\x01", b"\xc1"):
            x.add([mcase(["print %s %s" % (hexs(d), " ".join(map(str, range(1, 90))))], N)])
        add(b"")
        # descriptions of single tags, in buffers of every size up to what they need
        def desc(t, d=b"", ns=None):
            ns = ns or sorted(set([1, 2, 3, r.randrange(4, 30), r.randrange(20, 70), 100, 400]))
            x.add([mcase(["describe %s %s %s" % (t, hexs(d), " ".join(map(str, ns)))], N + (("ext",) if t.startswith("ext") else ()))])
        every = list(range(1, 75, x.n(2, 1))) + [400]
        for t in ("nil", "missing", "true", "false"): desc(t, b"", every)
        for v in INTS + NEGS + UBIG: desc(("int:%d" if v < 0 else "uint:%d") % v)
        for k in ("str", "array", "map"):
            for n in (0, 1, 9, 10, 255, 65536, 2**31, 2**32 - 1): desc("%s:%d" % (k, n), b"", every if n in (0, 2**32 - 1) else None)
        for n in (0, 1, 2, 11, 12, 13, 100, 2**31 - 1, 2**31, 2**32 - 1):
            for m in {0, 1, min(n, 11), min(n, 12), min(n, 13), min(n, 40)}:
                if m > n: continue
                d = bytes(r.randrange(256) for _ in range(m))
                desc("bin:%d" % n, d, every); desc("ext:%d:%d" % (n, r.choice([-128, -1, 0, 1, 100, 127])), d, every)
        for v in F64 + PF64: desc("double:0x%x" % v)
        for v in F32 + PF32: desc("float:0x%x" % v)

    @check("C27")
    def c27(x):
        r = x.r
        E = [0, 1, 2, 126, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1]
        tags = ["nil", "missing", "bool:0", "bool:1", "true", "false"]
        tags += ["%s:%d" % (k, n) for k in ("str", "bin", "array", "map") for n in E]
        exts = ["ext:%d:%d" % (n, t) for n in E[:6] + E[-3:] for t in (-128, -1, 0, 1, 127)]
        ints = sorted(set(v for v in INTS + NEGS + UBIG + [2**31, 2**63 - 2, -2**31 + 1, -2**62]))
        nums = ["uint:%d" % v for v in ints if v >= 0] + ["int:%d" % v for v in ints if v < 2**63]
        fl = ["float:0x%x" % v for v in F32 + [0xffc00000, 0x7f800001, 0x3f800001]] + ["double:0x%x" % v for v in F64 + [0xfff8000000000000, 0x3ff0000000000001]]
        allt = tags + nums + fl
        def add(s):
            x.add([mcase(["cmp " + " ".join(s)], ("ext",) if any(t.startswith("ext") for t in s) else ())])
        for s in (tags[:6], nums): add(s)
        add(tags); add(fl); add(exts); add([t for t in tags if ":" not in t] + exts[:20] + fl[:10] + nums[:10])
        for _ in range(x.n(40, 1500)): add(r.sample(allt + exts, r.choice([5, 10, 20, 30])))
        for _ in range(x.n(30, 1500)):
            k = r.choice(["uint", "int", "str", "bin", "array", "map", "mixed"])
            lim = 64 if k in ("uint", "int", "mixed") else 32
            s = []
            for _ in range(24):
                v = r.randrange(2**r.randrange(1, lim + 1)); v = min(2**lim - 1, max(0, v + r.choice([-1, 0, 1])))
                if k == "int" or (k == "mixed" and r.random() < .5):
                    v -= 2**63 if v >= 2**63 else 0; s.append("int:%d" % (v if r.random() < .5 else -v))
                else: s.append("%s:%d" % ("uint" if k == "mixed" else k, v))
            add(s)
        # typed matching agrees
        samples = [leaf(r, DOpt(maxlen=5)) for _ in range(x.n(150, 4000))] + [mk_int(r, v) for v in INTS + NEGS + UBIG]
        tg = {"nil": "nil", "bool": "bool", "float": "float", "double": "double"}
        names = ["nil 0", "bool 0", "bool 1"] + ["uint %d" % v for v in ints if v >= 0] + ["int %d" % v for v in ints if v < 2**63] + \
                ["float 0x%x" % v for v in F32] + ["double 0x%x" % v for v in F64] + ["%s %d" % (k, n) for k in ("str", "bin", "array", "map") for n in (0, 1, 2, 5, 16, 256)] + ["ext %d %d" % (n, t) for n in (0, 1, 4, 12) for t in (-1, 0, 5)]
        for nd in samples:
            own = {"int": "uint %d" % nd.v if nd.v is not None and (nd.v >= 0) else "int %s" % nd.v, "nil": "nil 0", "bool": "bool %s" % nd.v, "ext": "ext %s %d" % (nd.v, nd.x)}.get(nd.k) or ("%s 0x%x" if nd.k in ("float", "double") else "%s %d") % (nd.k, nd.v)
            for t in [own] + r.sample(names, 2) + (["int %d" % nd.v] if nd.k == "int" and 0 <= nd.v < 2**63 else []):
                x.add([rcase(nd.enc() + b"\xc0" * 3, ["etag " + t, "flag data"], MEM)])
