"""Generators of writer programs."""
import random
from .core import Case

INTS = sorted(set([0, 1, 2, 15, 16, 31, 32, 33, 126, 127, 128, 129, 200, 254, 255, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 65537,
        2**24, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**53, 2**63 - 1]))
NEGS = sorted(set([-1, -2, -31, -32, -33, -34, -127, -128, -129, -130, -200, -255, -256, -257, -32767, -32768, -32769, -65536, -2**31, -2**31 - 1,
        -2**32, -2**40, -2**63 + 1, -2**63]))
UBIG = [2**63, 2**63 + 1, 2**64 - 2, 2**64 - 1]
LENS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 34, 63, 64, 65, 100, 254, 255, 256, 257, 300]
BIGLENS = [65534, 65535, 65536, 65537]
F32 = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x00000001, 0x7f7fffff, 0x00800000, 0x3dcccccd, 0x12345678]
F64 = [0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, 0x7fefffffffffffff, 0x3fb999999999999a,
       0x0123456789abcdef, 0x47efffffe0000000, 0x36a0000000000000]

def hexs(b): return "x" + bytes(b).hex()

def rbytes(r, n, ascii_=False):
    if n > 600:
        k = r.randrange(1, 255)
        return "r%02x*%d+%s" % (k if not ascii_ else 97, n - 4, hexs(r.randrange(97, 122) for _ in range(4)))
    if ascii_: return hexs(r.randrange(32, 127) for _ in range(n))
    return hexs(r.randrange(256) for _ in range(n))

U8S = ["61", "c3a9", "e282ac", "f09f9880", "7f", "c280", "dfbf", "e0a080", "ed9fbf", "ee8080", "efbfbf", "f0908080", "f48fbfbf", "f3a08080"]
def utf8s(r, n):
    """valid UTF-8 of exactly n bytes, no NUL"""
    s = ""
    while len(s) // 2 < n:
        c = r.choice(U8S)
        if len(s + c) // 2 <= n: s += c
        else: s += "%02x" % r.randrange(1, 128)
    return "x" + s

def int_ops(v):
    o = []
    if v >= 0:
        for t, m in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64)):
            if v < 2**m: o.append("%s %d" % (t, v))
        o.append("uint %d" % v); o.append("tag uint %d" % v)
    if -2**63 <= v < 2**63:
        for t, m in (("i8", 7), ("i16", 15), ("i32", 31), ("i64", 63)):
            if -2**m <= v < 2**m: o.append("%s %d" % (t, v))
        o.append("int %d" % v); o.append("tag int %d" % v)
    return o
def gen_ops(v):
    o = []
    if v >= 0:
        o += ["gen %s %d" % (t, v) for t, m in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64)) if v < 2**m]
    o += ["gen %s %d" % (t, v) for t, m in (("i8", 7), ("i16", 15), ("i32", 31), ("i64", 63)) if -2**m <= v < 2**m]
    return o

class Opt:
    """what a document may contain"""
    def __init__(self, **k):
        self.builder = True; self.ext = True; self.real = True; self.gen = True; self.maxdepth = 4
        self.big = 0.0; self.chunk = True; self.maxlen = 300; self.ver = 5; self.ts = True
        self.builder_p = 0.35
        self.__dict__.update(k)

def scalar(r, o):
    k = r.random()
    if k < .35:
        v = r.choice(INTS + NEGS + UBIG) if r.random() < .8 else r.randrange(-2**63, 2**64)
        ops = int_ops(v)
        if o.gen and v < 2**63 and r.random() < .3: ops = gen_ops(v) or ops
        return [r.choice(ops)]
    if k < .42: return [r.choice(["nil", "true", "false", "bool 1", "bool 0", "tag nil 0", "tag bool 1", "tag bool 0"])]
    if k < .50 and o.real:
        if r.random() < .5: return [r.choice(["float 0x%x", "tag float 0x%x"]) % r.choice(F32)]
        return [r.choice(["double 0x%x", "tag double 0x%x"]) % r.choice(F64)]
    if k < .56 and o.ext and o.ts and o.ver == 5:
        s = r.choice([0, 1, -1, 2**32 - 1, 2**32, 2**34 - 1, 2**34, 2**63 - 1, -2**63, r.randrange(-2**63, 2**63)])
        ns = r.choice([0, 0, 1, 999999999, 500])
        return ["ts %d %d%s" % (s, ns, r.choice(["", " struct"] + ([" sec"] if ns == 0 else [])))]
    if k < .60:
        return ["objbytes " + r.choice(["x07", "xc0", "x93010203", "x81a16105", "xa3616263", "xcd0100", "x80", "x90", "xdc0000", "xd90161", "xca3f800000"])]
    if k < .70 and o.ext and o.ver == 5:
        n = r.choice([1, 2, 4, 8, 16, 0, 3, 5, 7, 9, 12, 15, 17, 255, 256]) if o.maxlen > 20 else r.randrange(0, 6)
        x = r.choice([0, 1, 127, -1, -2, -128, 5])
        if o.chunk and r.random() < .4: return chunked(r, "sext %d %d" % (x, n), n, "ext")
        return ["ext %d %s" % (x, rbytes(r, n))]
    n = r.choice([l for l in LENS if l <= o.maxlen])
    if r.random() < o.big: n = r.choice(BIGLENS)
    if k < .82:
        if o.chunk and r.random() < .4:
            return chunked(r, r.choice(["sbin %d", "tag bin %d"]) % n, n, "bin")
        return ["bin " + rbytes(r, n)]
    if o.chunk and r.random() < .25:
        return chunked(r, r.choice(["sstr %d", "tag str %d"]) % n, n, "str")
    j = r.randrange(7)
    if j == 0: return ["str " + rbytes(r, n)]
    if j == 1: return ["utf8 " + utf8s(r, n)] if n < 600 else ["utf8 " + rbytes(r, n, True)]
    if j == 2: return ["cstr " + rbytes(r, n, True)]
    if j == 3: return ["utf8cstr " + (utf8s(r, n) if n < 600 else rbytes(r, n, True))]
    if j == 4: return [r.choice(["cstrnil ", "utf8cstrnil "]) + (rbytes(r, n, True) if r.random() < .7 else "-")]
    if j == 5 and o.gen: return ["gen %s %s" % (r.choice(["cstr", "mcstr"]), rbytes(r, n, True) if r.random() < .8 else "-")]
    return ["str " + rbytes(r, n, True)]

def chunked(r, start, n, t):
    ops, left = [start], n
    while left > 0:
        c = left if r.random() < .3 else r.randrange(0, left + 1)
        if left > 600: c = r.choice([left, left // 2, 40, left - 1])
        ops.append("bytes " + rbytes(r, c)); left -= c
    if r.random() < .2: ops.append("bytes x")
    return ops + ["fin %s%s" % (t, r.choice(["", " type"]))]

def value(r, o, depth=0):
    """a random value as a list of calls"""
    if depth >= o.maxdepth or r.random() < (.55 if depth else .35): return scalar(r, o)
    n = r.choice([0, 1, 2, 3, 4, 5, 14, 15, 16, 17, 18]) if depth < 2 else r.choice([0, 1, 2, 3])
    if r.random() < .5:
        ops = []
        for _ in range(n): ops += value(r, o, depth + 1)
        if o.builder and r.random() < o.builder_p: return ["barr"] + ops + ["carr"]
        return [r.choice(["sarr %d", "tag array %d"]) % n] + ops + ["fin array%s" % r.choice(["", " type"])]
    ops = []
    for _ in range(n):
        if o.gen and r.random() < .3: ops.append(kv(r, o))
        else: ops += value(r, o, depth + 1) + value(r, o, depth + 1)
    if o.builder and r.random() < o.builder_p: return ["bmap"] + ops + ["cmap"]
    return [r.choice(["smap %d", "tag map %d"]) % n] + ops + ["fin map%s" % r.choice(["", " type"])]

def kv(r, o):
    key = rbytes(r, r.choice([0, 1, 3, 31, 32]), True)
    j = r.random()
    if j < .5:
        v = r.choice([x for x in INTS + NEGS if -2**63 <= x < 2**63])
        return "kv %s %s" % (key, r.choice(gen_ops(v))[4:])
    if j < .6: return "kv %s bool %d" % (key, r.randrange(2))
    if j < .7 and o.real: return "kv %s float 0x%x" % (key, r.choice(F32))
    if j < .8 and o.real: return "kv %s double 0x%x" % (key, r.choice(F64))
    return "kv %s %s %s" % (key, r.choice(["cstr", "mcstr"]), rbytes(r, r.choice([0, 3, 31, 32, 40]), True) if r.random() < .8 else "-")

def needs(prog):
    n = set()
    for l in prog:
        op = l.split(" ")
        if op[0] in ("ext", "sext", "ts") or l.startswith(("tag ext", "fin ext")): n.add("ext")
        if op[0] in ("barr", "bmap", "carr", "cmap"): n.add("builder")
        if op[0] == "version": n.add("compat")
        if op[0] in ("gen", "kv") and "float" in op[1:3]: n.add("flt")
        if op[0] in ("gen", "kv") and "double" in op[1:3]: n.add("dbl")
    return n

def wcase(prog, envs, correct=True, **k):
    c = Case("W", prog, envs, need=needs(prog) | (set() if correct else {"trk"}), **k)
    if correct: c.h = dict(c.h, correct=True)
    return c
