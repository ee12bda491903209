"""Generators of MessagePack data and of reader programs."""
import random, struct
from .core import Case
from .gen_w import INTS, NEGS, UBIG, LENS, BIGLENS, F32, F64, hexs, U8S

class Node:
    """one object: kind, header bytes, payload or children, value"""
    __slots__ = ("k", "hdr", "body", "kids", "v", "x")
    def __init__(self, k, hdr, v=None, body=b"", kids=(), x=0):
        self.k, self.hdr, self.v, self.body, self.kids, self.x = k, hdr, v, body, list(kids), x
    def enc(self):
        return self.hdr + self.body + b"".join(c.enc() for c in self.kids)
    def size(self): return len(self.enc())
    def count(self): return 1 + sum(c.count() for c in self.kids)
    def walk(self):
        yield self
        for c in self.kids: yield from c.walk()

def be(v, n): return (v & (2**(8*n) - 1)).to_bytes(n, "big")

def mk_int(r, v, minimal=False):
    o = []
    if 0 <= v < 128: o.append(bytes([v]))
    if -32 <= v < 0: o.append(be(v, 1))
    for b, n in ((0xcc, 1), (0xcd, 2), (0xce, 4), (0xcf, 8)):
        if 0 <= v < 2**(8*n): o.append(bytes([b]) + be(v, n))
    for b, n in ((0xd0, 1), (0xd1, 2), (0xd2, 4), (0xd3, 8)):
        if -2**(8*n-1) <= v < 2**(8*n-1): o.append(bytes([b]) + be(v, n))
    h = o[0] if minimal else r.choice(o)
    return Node("int", h, v)
def int_encs(v):
    s = set()
    r = random.Random(1)
    for _ in range(60): s.add(mk_int(r, v).hdr)
    return sorted(s)
def len_hdr(r, k, n, x=0, minimal=False):
    o = []
    if k == "str":
        if n < 32: o.append(bytes([0xa0 + n]))
        for b, w in ((0xd9, 1), (0xda, 2), (0xdb, 4)):
            if n < 2**(8*w): o.append(bytes([b]) + be(n, w))
    elif k == "bin":
        for b, w in ((0xc4, 1), (0xc5, 2), (0xc6, 4)):
            if n < 2**(8*w): o.append(bytes([b]) + be(n, w))
    elif k == "ext":
        f = {1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}
        if n in f: o.append(bytes([f[n]]) + be(x, 1))
        for b, w in ((0xc7, 1), (0xc8, 2), (0xc9, 4)):
            if n < 2**(8*w): o.append(bytes([b]) + be(n, w) + be(x, 1))
    elif k == "array":
        if n < 16: o.append(bytes([0x90 + n]))
        for b, w in ((0xdc, 2), (0xdd, 4)):
            if n < 2**(8*w): o.append(bytes([b]) + be(n, w))
    elif k == "map":
        if n < 16: o.append(bytes([0x80 + n]))
        for b, w in ((0xde, 2), (0xdf, 4)):
            if n < 2**(8*w): o.append(bytes([b]) + be(n, w))
    return o[0] if minimal else r.choice(o)

def text(r, n):
    s = b""
    while len(s) < n:
        c = bytes.fromhex(r.choice(U8S)) if r.random() < .4 else bytes([r.randrange(32, 127)])
        if len(s + c) <= n: s += c
        else: s += bytes([r.randrange(1, 128)])
    return s
def payload(r, n, kind):
    if n > 600:
        c = bytes([r.randrange(97, 122)])
        return c * (n - 4) + bytes(r.randrange(97, 122) for _ in range(4))
    if kind == "text": return text(r, n)
    if kind == "nul": return bytes(r.choice([0, 97, 98]) for _ in range(n))
    return bytes(r.randrange(256) for _ in range(n))

class DOpt:
    def __init__(self, **k):
        self.maxdepth = 4; self.maxlen = 70; self.ext = True; self.real = True; self.minimal = False; self.width = 5
        self.strings = ("text", "text", "text", "nul", "raw"); self.ts = True
        self.__dict__.update(k)

def mk_str(r, n, kind="text", minimal=False):
    b = payload(r, n, kind); return Node("str", len_hdr(r, "str", n, minimal=minimal), n, b)
def mk_ts(r, s, ns, minimal=True):
    if not minimal: return Node("ext", len_hdr(r, "ext", 12, -1), 12, be(ns, 4) + be(s, 8), x=-1)
    if 0 <= s < 2**32 and ns == 0: b = be(s, 4)
    elif 0 <= s < 2**34: b = be(ns << 34 | s, 8)
    else: b = be(ns, 4) + be(s, 8)
    return Node("ext", len_hdr(r, "ext", len(b), -1, True), len(b), b, x=-1)

def leaf(r, o):
    k = r.random()
    if k < .38:
        v = r.choice(INTS + NEGS + UBIG) if r.random() < .85 else r.randrange(-2**63, 2**64)
        return mk_int(r, v, o.minimal)
    if k < .48: return r.choice([Node("nil", b"\xc0"), Node("bool", b"\xc2", 0), Node("bool", b"\xc3", 1)])
    if k < .56 and o.real:
        if r.random() < .5:
            v = r.choice(F32); return Node("float", b"\xca" + be(v, 4), v)
        v = r.choice(F64); return Node("double", b"\xcb" + be(v, 8), v)
    n = r.choice([l for l in LENS if l <= o.maxlen])
    if k < .64 and o.ext:
        if o.ts and r.random() < .5:
            return mk_ts(r, r.choice([0, 1, -1, 2**32 - 1, 2**32, 2**34 - 1, 2**34, 2**63 - 1, -2**63]), r.choice([0, 0, 1, 999999999]), r.random() < .7)
        n = r.choice([1, 2, 4, 8, 16, 0, 3, 5, 12, 17, n])
        x = r.choice([0, 1, 127, -2, -128, 5])
        return Node("ext", len_hdr(r, "ext", n, x, o.minimal), n, payload(r, n, "raw"), x=x)
    if k < .76: return Node("bin", len_hdr(r, "bin", n, minimal=o.minimal), n, payload(r, n, "raw"))
    return mk_str(r, n, r.choice(o.strings), o.minimal)

def mk_array(r, kids, minimal=False):
    return Node("array", len_hdr(r, "array", len(kids), minimal=minimal), len(kids), kids=kids)
def mk_map(r, kids, minimal=False):
    return Node("map", len_hdr(r, "map", len(kids) // 2, minimal=minimal), len(kids) // 2, kids=kids)
def doc(r, o, depth=0):
    if depth >= o.maxdepth or r.random() < (.5 if depth else .25): return leaf(r, o)
    n = r.choice([0, 1, 2, 3, o.width, 15, 16, 17]) if depth < 2 else r.choice([0, 1, 2, 3])
    n = min(n, o.width * 4)
    if r.random() < .5: return mk_array(r, [doc(r, o, depth + 1) for _ in range(n)], o.minimal)
    return mk_map(r, [doc(r, o, depth + 1) for _ in range(2 * n)], o.minimal)

# ---- calls that read an object properly ----
UT = [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("uint", 32)]
ST = [("i8", 7), ("i16", 15), ("i32", 31), ("i64", 63), ("int", 31)]
def num_ok(r, v):
    o = ["tag"]
    for t, w in UT:
        if 0 <= v < 2**w:
            lo = r.choice([0, v, max(0, v - 1), v // 2]); hi = r.choice([v, min(2**w - 1, v + 1), 2**w - 1])
            o += ["n " + t, "n %s_range %d %d" % (t, lo, hi), "n %s_max %d" % (t, hi)]
            if w == 64: o.append("n uint_match %d" % v)
    for t, w in ST:
        if -2**w <= v < 2**w:
            lo = r.choice([-2**w, v, max(-2**w, v - 1)]); hi = r.choice([v, min(2**w - 1, v + 1), 2**w - 1])
            o += ["n " + t, "n %s_range %d %d" % (t, lo, hi)]
            if v >= 0: o.append("n %s_max %d" % (t, hi))
            if w == 63: o.append("n int_match %d" % v)
    return o
def num_any(r, v):
    """any typed number read, fitting or not"""
    t, w = r.choice(UT + ST)
    u = t[0] == "u"
    lim = (0, 2**w - 1) if u else (-2**w, 2**w - 1)
    clip = lambda y: min(lim[1], max(lim[0], y))
    a, b = sorted((clip(v + r.choice([-2, -1, 0, 1, 2, -1000, 300])), clip(v + r.choice([-2, -1, 0, 1, 2, 1000, -300]))))
    return r.choice(["n " + t, "n %s_range %d %d" % (t, a, b), "n %s_max %d" % (t, max(0, b)), "n uint_match %d" % (v % 2**64 if r.random() < .7 else 3),
                     "n int_match %d" % (v if -2**63 <= v < 2**63 else 5)])
def floats_any(r):
    return r.choice(["f float", "f double", "f float_strict", "f double_strict",
                     "f float_range 0x%x 0x%x" % r.choice([(0xff800000, 0x7f800000), (0, 0x3f800000), (0xbf800000, 0x42c80000), (0x80000000, 0), (0x3dcccccd, 0x7f7fffff)]),
                     "f double_range 0x%x 0x%x" % r.choice([(0xfff << 52, 0x7ff << 52), (0, 0x3ff << 52), (0xbff << 52, 0x4059000000000000), (1 << 63, 0), (0x3fb999999999999a, 0x7fefffffffffffff)])])

class ROpt:
    def __init__(self, **k):
        self.typed = True; self.pdisc = .06; self.inplace = 1000; self.alloc = True; self.big = 70000; self.float_cfg = True
        self.__dict__.update(k)

def content(r, n, o, t, b=b""):
    """reads n bytes of the open object and closes it"""
    ops = []
    if t == "str" and r.random() < .35:
        k = r.random()
        if k < .25: ops = ["bytes %d" % n]
        elif k < .5 and is_utf8(b): ops = [r.choice(["utf8 %d" % n] + (["utf8inplace %d" % n] if n <= o.inplace else []))]
        elif b"\0" not in b:
            ops = ["%s %d %d" % (r.choice(["cstr"] + (["utf8cstr"] if is_utf8(b) else [])), n + r.choice([1, 1, 2, 30]), n)]
        else: ops = ["skip %d" % n]
    else:
        left = n
        while left > 0 or not ops:
            c = left if r.random() < .5 else r.randrange(0, left + 1)
            k = r.random()
            if k < .3: ops.append("bytes %d" % c)
            elif k < .55 and c <= o.inplace: ops += ["should %d" % c][:r.randrange(2)] + ["inplace %d" % c]
            elif k < .75: ops.append("skip %d" % c)
            elif o.alloc: ops.append(r.choice(["balloc %d", "ballocz %d"]) % c)
            else: ops.append("bytes %d" % c)
            left -= c
            if len(ops) > 5 and left: ops.append("skip %d" % left); left = 0
    return ops + ["done %s%s" % (t, r.choice(["", " type"]))]
def is_utf8(b):
    try: b.decode("utf-8"); return True
    except UnicodeDecodeError: return False
def other_keys(r, b):
    ks = [hexs(k) for k in (b"", b"a", b"key", b + b"x", b[:-1]) if b"\0" not in k and k != b]
    r.shuffle(ks)
    return ks[:r.randrange(1, 4)]

def read_ops(r, nd, o):
    """calls that read this object completely"""
    if r.random() < o.pdisc: return ["discard"]
    pre = ["peek"] if r.random() < .08 else []
    ty = o.typed and r.random() < .6
    k = nd.k
    if k == "nil": return pre + [r.choice(["enil", "c map_or_nil", "c array_or_nil", "etag nil 0", "c map_max_or_nil 3"] + (["aalloc nil 5"] if o.alloc else [])) if ty else "tag"]
    if k == "bool": return pre + [r.choice(["ebool", "etrue" if nd.v else "efalse", "etag bool %d" % nd.v]) if ty else "tag"]
    if k == "int":
        if not ty: return pre + ["tag"]
        l = num_ok(r, nd.v)
        if o.float_cfg and r.random() < .1: l = ["f float", "f double"]
        if r.random() < .08: l = ["etag uint %d" % nd.v] if nd.v >= 0 and r.random() < .5 or nd.v >= 2**63 else ["etag int %d" % nd.v]
        if r.random() < .05: return ["keynew", "keyuint %d" % r.choice([1, 5, 33])]
        return pre + [r.choice(l)]
    if k in ("float", "double"):
        if not ty: return pre + ["tag"]
        l = ["etag %s 0x%x" % (k, nd.v)]
        if o.float_cfg: l += {"float": ["f float", "f double", "f float_strict", "f double_strict"], "double": ["f double", "f double_strict", "f float"]}[k]
        return pre + [r.choice(l)]
    n = nd.v
    if k in ("str", "bin", "ext"):
        if ty:
            j = r.random()
            b = nd.body
            if j < .5:
                l = []
                if k == "str":
                    l += [["b str_buf %d" % r.choice([n, n + 1, n + 40])]]
                    if is_utf8(b): l += [["b utf8 %d" % r.choice([n, n + 1])]]
                    if b"\0" not in b:
                        l += [["s cstr %d" % r.choice([n + 1, n + 9])], ["enumopt " + ",".join(other_keys(r, b) + [hexs(b)])] if n <= min(o.inplace, 200) else ["b str_buf %d" % n]]
                        if o.alloc: l += [["a cstr %d" % r.choice([n + 1, n + 9])]]
                        if is_utf8(b):
                            l += [["s utf8_cstr %d" % r.choice([n + 1, n + 2])]]
                            if o.alloc: l += [["a utf8_cstr %d" % r.choice([n + 1, n + 2])]]
                        if n < 200 and n <= o.inplace: l += [["m cstr " + hexs(b)], ["enum " + ",".join(other_keys(r, b) + [hexs(b)] + other_keys(r, b))],
                                           ["keynew", "keycstr " + ",".join(other_keys(r, b) + [hexs(b)])], ["keynew", "keyuint 4"], ["enumopt " + ",".join(other_keys(r, b))]]
                    if n < 300: l += [["m str " + hexs(b)]]
                elif k == "bin":
                    l += [["b bin_buf %d" % r.choice([n, n + 1, n + 40])], ["b bin_size_buf %d" % n]]
                    if o.alloc: l += [["a bin %d" % r.choice([n, n + 1])]]
                else:
                    if nd.x == -1: l += [["ets"], ["etst"]]
                    else:
                        l += [["b ext_buf %d" % r.choice([n, n + 1])]]
                        if o.alloc: l += [["a ext %d" % r.choice([n, n + 1])]]
                return pre + r.choice(l)
            if not (k == "ext" and nd.x == -1):
                h = r.choice(["l %s" % k, "l %s_max %d" % (k, r.choice([n, n + 1, 2**32 - 1])), "l %s %d" % ({"str": "str_length", "bin": "bin_size", "ext": "ext_size"}[k], n),
                          "etag %s %d%s" % (k, n, " %d" % nd.x if k == "ext" else "")])
                return pre + [h] + content(r, n, o, k, nd.body)
        if k == "ext" and nd.x == -1 and n in (4, 8, 12) and r.random() < .6: return pre + ["tag", "ts %d" % n]
        return pre + ["tag"] + content(r, n, o, k, nd.body)
    # compounds
    if ty:
        h = r.choice(["c %s" % k, "c %s_range %d %d" % (k, r.choice([0, n]), r.choice([n, n + 1])), "c %s_max %d" % (k, n + r.choice([0, 1])), "c %s_match %d" % (k, n),
                      "c %s_or_nil" % k, "c %s_max_or_nil %d" % (k, n + r.choice([0, 3])), "etag %s %d" % (k, n)])
        if k == "array" and o.alloc and r.random() < .2: h = "aalloc %s %d" % (r.choice(["arr"] + (["nil"] if n else [])), n + r.choice([0, 2]))
    else: h = "tag"
    ops = pre + [h]
    for c in nd.kids: ops += read_ops(r, c, o)
    return ops + ["done " + k]

TAIL = ["tag", "peek", "bytes 1", "cstr 5 2", "utf8cstr 3 1", "inplace 1", "utf8inplace 0", "balloc 3", "ballocz 0", "skip 1", "done array", "discard", "remain", "ts 4", "utf8 1",
        "n u8", "n i64", "n u16_range 7 9", "n i32_range -5 5", "n uint_max 4", "n int_match 0", "f float", "f double", "f float_strict", "f double_range 0x3ff0000000000000 0x4000000000000000",
        "c map", "c array_range 2 5", "c map_or_nil", "c array_max_or_nil 3", "aalloc arr 5", "aalloc nil 5", "l str", "l ext", "l bin_max 4", "l ext_size 3", "b str_buf 8", "b utf8 2", "b bin_buf 3",
        "b bin_size_buf 2", "b ext_buf 4", "s cstr 4", "s utf8_cstr 1", "a cstr 5", "a utf8_cstr 4", "a bin 3", "a ext 4", "m str x61", "m cstr x6162", "etag nil 0", "enil", "ebool", "etrue", "efalse",
        "ets", "etst", "enum x61,x62", "enumopt x61", "keyuint 3", "keycstr x61", "flag bug", "flag io", "should 1", "should 4000000"]
TYPED = [t for t in TAIL if t.split(" ")[0] in ("n", "f", "c", "aalloc", "l", "b", "s", "a", "m", "etag", "enil", "ebool", "etrue", "efalse", "ets", "etst", "enum", "enumopt", "keyuint", "keycstr")]
def tail(r, k=4): return [r.choice(TAIL) for _ in range(k)]

def rneeds(prog):
    n = set()
    for l in prog:
        w = l.split(" ")
        if w[0] in ("ts", "ets", "etst") or l.startswith(("l ext", "b ext", "a ext", "done ext", "etag ext")): n.add("ext")
        if w[0] in ("balloc", "ballocz", "a", "aalloc"): n.add("malloc")
        if w[0] == "f":
            if w[1] in ("raw_float",): n.add("noflt")
            elif w[1] in ("raw_double",): n.add("nodbl")
            else: n.add("flt" if "float" in w[1] else "dbl")
    return n

# correct: True: a proper use; False: misuse, judged where tracking is on;
# None: anything goes, a build without tracking reads on
def rcase(data, prog, envs, correct=True, needs=(), **k):
    d = data if isinstance(data, str) else hexs(data)
    c = Case("R", ["data " + d] + prog, envs, need=rneeds(prog) | set(needs) | ({"trk"} if correct is False else set()), **k)
    if correct: c.h = dict(c.h, correct=True)
    return c

MEM = [dict(src="mem")]
def streams(r, n, k, bufs=(32, 33, 37, 48, 64, 100, 4096), **kw):
    """k stream environments"""
    o = []
    for _ in range(k):
        e = dict(src="stream", buf=r.choice(bufs), skip=r.randrange(2), ch=r.choice(["1", "1", "2", "3", "7", "1,2", "5,1,30", "16", "31", "33", "1000000", "40,1", "1,40"]))
        if r.random() < .3: e["pre"] = r.choice([0, 1, 2, 5, 31, 32, n, max(0, n - 1)])
        if r.random() < .5: e["eos"] = r.choice(["-1", "0", "eof", "data"])
        e.update(kw)
        o.append(e)
    return o
def files(r, k):
    return [dict(src="file", close=r.choice([1, 0, "name"]), seek=r.randrange(2), unbuf=r.choice([1, 1, 0]), shortn=r.choice([0, 0, 1, 7])) for _ in range(k)]

def strings_of_model(x, add, quick_len=3, quick_more=300):
    """every string that the message model grows, given to add(bytes)"""
    def use(ctx, out):
        from .registry import progs_of
        ds = sorted({bytes.fromhex(p[0]) for p in progs_of(out)}, key=lambda d: (len(d), d))
        if not ds: raise Exception("the model printed no strings")
        if not ctx.thorough:
            short = [d for d in ds if len(d) <= 2]
            rest = [d for d in ds if len(d) > 2]
            ds = short + ctx.r.sample(rest, min(quick_more, len(rest)))
        for d in ds: add(d)
        ctx.notes.append("%d strings grown by MCParse run on the code" % len(ds))
    x.models.append(dict(module="MCParse.tla", env=dict(MC_LEN=str(x.n(quick_len, 4))), use=use, timeout=x.n(400, 3000)))

def maps_of_model(x, add, quick):
    """maps of up to three entries from MCMap, given to add(bytes)"""
    def use(ctx, out):
        from .registry import progs_of
        ds = sorted({bytes.fromhex(p[0]) for p in progs_of(out)}, key=lambda d: (len(d), d))
        if not ds: raise Exception("the model printed no maps")
        few = [d for d in ds if d[0] < 0x83]
        rest = [d for d in ds if d[0] >= 0x83]
        if not ctx.thorough: rest = ctx.r.sample(rest, min(quick, len(rest)))
        for d in few + rest: add(d)
    x.models.append(dict(module="MCMap.tla", env=dict(MC_N="3"), use=use, timeout=x.n(400, 3000)))
