"""Which programs, environments and models decide each property."""
import random
from .core import Case
from . import core
from .gen_w import *

CHECKS = {}
def check(pid, level="exploration", **k):
    def deco(f):
        CHECKS[pid] = dict(gen=f, level=level, **k)
        return f
    return deco

def out_len(progs):
    """length of what each program writes, measured on the code"""
    cs = [Case("W", p, [dict(sink="grow")], {"correct": True}, needs(p)) for p in progs]
    res = core.run_cases(cs, ["rel"])
    ln = {}
    for t in res.traces:
        for cid, _, _ in t["src"][:1]:
            pass
    for t in res.traces:
        e = __import__("json").loads(t["log"].split("\n")[-1])
        for cid, _, _ in t["src"]:
            ln[cid] = len(e.get("out", "x")) // 2 if e.get("set") else 0
    return [ln.get("c%d" % i, 0) for i in range(len(progs))]

FLUSH = [dict(sink="flush", cap=c) for c in (32, 33, 34, 35, 37, 40, 64, 100, 4096)]
GROW = [dict(sink="grow")]
FILES = [dict(sink="file", close=1), dict(sink="file", close="name"), dict(sink="file", close=0), dict(sink="file", close=1, shortn=7)]

@check("C01", need=None)
def c01(x):
    r = x.r
    x.models.append(dict(module="MCWire.tla"))      # the specified encoder: smallest form, read back unchanged
    ints = set(INTS + NEGS + UBIG)
    for k in range(0, 65): ints |= {2**k - 1, 2**k, 2**k + 1, -2**k, -2**k - 1, -2**k + 1}
    ints = sorted(v for v in ints if -2**63 <= v < 2**64)
    ints += [r.randrange(-2**r.randrange(1, 63), 2**r.randrange(1, 64)) for _ in range(x.n(60, 3000))]
    if x.thorough: ints += list(range(-70000, 70000, 7))
    ops = [[o] for v in ints for o in int_ops(v) + gen_ops(v)]
    ops += [["nil"], ["true"], ["false"], ["bool 0"], ["bool 1"], ["tag nil 0"], ["tag bool 1"], ["tag bool 0"], ["gen bool 0"], ["gen bool 1"]]
    for f in F32: ops += [["float 0x%x" % f], ["tag float 0x%x" % f], ["gen float 0x%x" % f]]
    for f in F64: ops += [["double 0x%x" % f], ["tag double 0x%x" % f], ["gen double 0x%x" % f]]
    for _ in range(x.n(20, 400)):
        ops += [["float 0x%x" % r.randrange(2**32)], ["double 0x%x" % r.randrange(2**64)]]
    # every overload of the generic key and value call, with keys of every header size
    kvs = {}
    for v in INTS + NEGS + UBIG:
        for o in gen_ops(v): kvs.setdefault(o.split()[1], []).append(o[4:])
    kvs["bool"] = ["bool 0", "bool 1"]; kvs["float"] = ["float 0x%x" % f for f in F32]; kvs["double"] = ["double 0x%x" % f for f in F64]
    for t in ("cstr", "mcstr"): kvs[t] = [t + " " + rbytes(r, n, True) for n in (0, 3, 31, 32, 255, 256)] + [t + " -"]
    for t, l in kvs.items():
        for i in range(0, len(l), 8):
            q = l[i:i+8]
            ops.append(["smap %d" % len(q)] + ["kv %s %s" % (rbytes(r, r.choice([0, 1, 5, 31, 32]), True), o) for o in q] + ["fin map"])
    for n in LENS + BIGLENS:
        ops += [["str " + rbytes(r, n)], ["bin " + rbytes(r, n)], ["utf8 " + rbytes(r, n, True)], ["cstr " + rbytes(r, n, True)],
                ["gen cstr " + rbytes(r, n, True)], ["kv %s u8 1" % rbytes(r, n, True)],
                ["sstr %d" % n, "bytes " + rbytes(r, n), "fin str"], ["tag bin %d" % n, "bytes " + rbytes(r, n), "fin bin"],
                ["version 4", "str " + rbytes(r, n)], ["version 4", "bin " + rbytes(r, n)], ["version 4", "sbin %d" % n, "bytes " + rbytes(r, n), "fin bin"],
                ["version 4", "cstr " + rbytes(r, n, True)], ["version 4", "tag str %d" % n, "bytes " + rbytes(r, n), "fin str"]]
        for e in (0, 1, -1, 127, -128): ops += [["ext %d %s" % (e, rbytes(r, n))], ["sext %d %d" % (e, n), "bytes " + rbytes(r, n), "fin ext"],
                ["tag ext %d %d" % (n, e), "bytes " + rbytes(r, n), "fin ext"]]
    for n in [0, 1, 15, 16, 17, 255, 256, 65535, 65536, 65537, 2**24, 2**31, 2**32 - 1]:
        # the header alone: the rest of the announced elements is never written, so an error is set first
        for o in ("sarr %d", "smap %d", "tag array %d", "tag map %d", "sstr %d", "sbin %d", "tag str %d", "tag bin %d", "sext 5 %d"):
            ops += [[o % n, "query", "flag data"]]
    for n in (0, 1, 2, 15, 16, 17, 31, 32):
        ops += [["sarr %d" % n] + ["nil"] * n + ["fin array"], ["smap %d" % n] + ["u8 3", "nil"] * n + ["fin map"],
                ["barr"] + ["nil"] * n + ["carr"], ["bmap"] + ["u8 3", "nil"] * n + ["cmap"]]
    for s in (0, 1, 2**32 - 1, 2**32, 2**34 - 1, 2**34, -1, 2**63 - 1, -2**63):
        for ns in (0, 1, 999999999, 1000000000, 2**32 - 1): ops += [["ts %d %d" % (s, ns)], ["version 4", "ts %d %d" % (s, ns)]]
    for o in ("ext 5 x01", "sext 5 1", "tag ext 1 5"): ops.append(["version 4", o])
    ver4 = Opt(ext=False, ver=4)
    for _ in range(x.n(60, 2000)): ops.append(["version 4"] + value(r, ver4))
    for _ in range(x.n(100, 3000)): ops.append(value(r, Opt()))
    # v4 extension writes are misuse: the break function is called in debug builds
    x.add([wcase(o, [dict(sink="fixed", cap=140000 if any("*" in l for l in o) else 3000)] if "query" in o or r.random() < .8 else GROW) for o in ops])

@check("C03")
def c03(x):
    r = x.r
    # every fill level of the smallest buffer with every next write
    def use(ctx, out):
        ps = progs_of(out)
        for p in (ps if x.thorough else r.sample(ps, min(600, len(ps)))):
            e = [dict(sink="flush", cap=32)]
            if r.random() < .4: e.append(dict(sink="flush", cap=32, ferr=r.randrange(1, 4), fer=r.choice(["io", "data", "bug"])))
            x.add([wcase(p + ["u16 300", "nil"][:r.randrange(3)], e)])
    x.models.append(dict(module="MCFlush.tla", env=dict(MC_FULL=str(x.n(0, 1))), workers=1, use=use, timeout=x.n(400, 3000)))
    progs = []
    for i in range(x.n(170, 3000)):
        o = Opt(maxdepth=r.choice([1, 2, 3]), maxlen=r.choice([5, 40, 300]), builder=r.random() < .5)
        p = []
        for _ in range(r.choice([1, 1, 2, 6])):
            p += value(r, o)
            if r.random() < .2: p.append("FLUSH")
        progs.append(p[:400] if "barr" in p or "sarr" in " ".join(p) else p)
    for n in list(range(0, 70)) + [127, 128, 255, 4095, 4096, 4097, 5000]:
        progs.append(["nil"] * r.randrange(0, 40) + ["str " + rbytes(r, n)] + ["u64 %d" % (2**40)] * 3)
        progs.append(["u16 300"] * 9 + ["sbin %d" % n, "bytes " + rbytes(r, n), "fin bin", "FLUSH", "nil"])
    progs = [balance(p) for p in progs]
    fixedp = [[l for l in p if l != "FLUSH"] for p in progs]
    lens = out_len(fixedp)
    for p, q, n in zip(progs, fixedp, lens):
        caps = {n, max(0, n - 1), n + 1, r.randrange(0, n + 1), n // 2, r.randrange(0, 40)}
        x.add([wcase(q + ["query"], [dict(sink="fixed", cap=c) for c in sorted(caps) if c > 0])])
        fl = [l if l != "FLUSH" else "flushmsg" for l in p]
        x.add([wcase(fl, FLUSH + [dict(sink="flush", cap=r.randrange(32, 300)) for _ in range(4)])])
        x.add([wcase(fl, GROW + FILES)])

def balance(p):
    """cut a program at a point where nothing is open"""
    d, last = 0, 0
    out = []
    for l in p:
        out.append(l)
        o = l.split(" ")
        if o[0] in ("sarr", "smap", "sstr", "sbin", "sext", "barr", "bmap") or (o[0] == "tag" and o[1] in ("str", "bin", "ext", "array", "map")): d += 1
        if o[0] in ("fin", "carr", "cmap"): d -= 1
        if d == 0: last = len(out)
        if l == "FLUSH" and d: out.pop()
    return out[:last]

def progs_of(out, tag="PROG"):
    """programs printed by a model as <<"PROG", <<"op", ...>>>>"""
    import re
    ps = []
    for m in re.finditer(r'<<\s*"' + tag + r'",\s*<<(.*?)>>\s*>>', out, re.S):
        p = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))
        if p: ps.append(p)
    return ps

def close(p, r):
    """completes what a program of MCBuild leaves open"""
    st = []
    for l in p:
        if l in ("carr", "cmap"): st.pop()
        elif st: st[-1][1] += 1
        if l in ("barr", "bmap"): st.append([l, 0])
    q = []
    while st:
        t, n = st.pop()
        if t == "bmap" and n % 2: q.append(r.choice(["nil", "u16 300", "str x61"]))
        q.append("cmap" if t == "bmap" else "carr")
    return p + q

# header, record, alignment, page, first page: of the configurations
BUILD_SIZES = [(16, 32, 8, 160, 160), (8, 24, 4, 144, 144), (16, 32, 8, 81, 83)]

def builder_doc(r, depth, n):
    """deeply nested automatic and explicit compounds around elements of chosen sizes"""
    if depth == 0: return ["str " + rbytes(r, n)] if r.random() < .8 else ["bin " + rbytes(r, n)]
    k = r.randrange(4)
    inner = builder_doc(r, depth - 1, n)
    pad = lambda: ["str " + rbytes(r, r.choice([0, 1, 5, 20, 31, 32, 40, 60]))] if r.random() < .6 else ["u8 1"]
    if k == 0: return ["barr"] + pad() + inner + pad() + ["carr"]
    if k == 1: return ["bmap"] + pad() + inner + pad() + pad() + ["cmap"]
    if k == 2: return ["sarr 2"] + inner + pad() + ["fin array"]
    return ["smap 1"] + pad() + inner + ["fin map type"]

@check("C04")
def c04(x):
    r = x.r
    # every fill level of the builder's pages with every next call
    def use(ctx, out):
        ps = progs_of(out)
        for p in (ps if x.thorough and len(ps) < 60000 else r.sample(ps, min(x.n(500, 40000), len(ps)))):
            x.add([wcase(close(p, r), [r.choice(envs), GROW[0]])])
    envs = GROW + [dict(sink="flush", cap=33), dict(sink="flush", cap=4096), dict(sink="file", close=1)]
    for hd, bd, al, pg, p1 in BUILD_SIZES:
        x.models.append(dict(module="MCBuild.tla", env=dict(MC_HDR=str(hd), MC_BUILD=str(bd), MC_ALIGN=str(al), MC_PAGE=str(pg), MC_FIRST=str(p1), MC_FULL=str(x.n(0, 1))),
                             workers=1, use=use, timeout=x.n(400, 3000)))
    progs = []
    # every split of the internal storage: one payload of each size at each point
    for n in range(0, x.n(230, 700)):
        progs += [["barr", "str " + rbytes(r, n), "carr"], ["bmap", "u8 1", "barr", "bin " + rbytes(r, n), "carr", "cmap"],
                  ["barr", "bin " + rbytes(r, n), "barr", "nil", "carr", "nil", "carr"],
                  ["barr", "sstr %d" % n] + ["bytes " + rbytes(r, min(7, n - i)) for i in range(0, n, 7)] + ["fin str", "bmap", "nil", "nil", "cmap", "carr"]]
        progs.append(["barr"] + ["u8 200"] * n + ["carr", "bmap", "nil", "u16 %d" % (n * 300), "cmap"])
    for n in range(3900, 4110, x.n(7, 1)):     # the default page size
        progs.append(["barr", "bin " + rbytes(r, n), "barr", "nil", "carr", "true", "carr"])
    for n in range(3960, 4100, 4):
        progs.append(["barr", "str " + rbytes(r, n), "bmap", "cmap", "true", "carr"])
    for n in range(0, 40):
        progs.append(["barr"] + ["barr", "nil", "carr"] * n + ["carr"])
        progs.append(["barr"] * n + ["u64 %d" % 2**40] + ["carr"] * n if n else ["nil"])
        progs.append(["bmap"] + ["str " + rbytes(r, n), "bmap", "cmap"] * 5 + ["cmap"])
        progs.append(["barr"] + ["barr", "str " + rbytes(r, n), "carr", "nil"] * 6 + ["carr"] + ["barr", "carr"] * 2)
    for d in range(1, 7):
        for _ in range(x.n(25, 400)):
            progs.append(builder_doc(r, d, r.choice([0, 1, 10, 33, 50, 77, 78, 100, 150])))
    for _ in range(x.n(250, 6000)):
        o = Opt(builder_p=.8, maxdepth=r.choice([2, 3, 4, 5]), maxlen=r.choice([8, 40, 100, 300]))
        p = ["barr"]
        for _ in range(r.choice([1, 2, 5])): p += value(r, o, 1)
        progs.append(balance((p + ["carr"]) * r.choice([1, 1, 2])))
    for n in (15, 16, 17, 255, 65535, 65536, 65537):
        progs.append(["barr", "repnil %d" % n, "carr", "nil"])
        progs.append(["bmap", "repnil %d" % (2 * n), "cmap", "barr", "carr"])
        progs.append(["barr", "sarr %d" % n, "repnil %d" % n, "fin array", "carr"])
    for p in progs:
        big = any(l.startswith("repnil") and len(l) > 10 for l in p)
        x.add([wcase(p, GROW if big else [r.choice(envs), GROW[0]])])
    # odd maps and unfinished compounds are flagged in every configuration
    for p in (["bmap", "nil", "cmap"], ["bmap", "u8 1", "u8 2", "u8 3", "cmap"], ["barr", "bmap", "str x61", "cmap", "carr"],
              ["bmap", "barr", "carr", "cmap"], ["bmap", "sarr 0", "fin array", "cmap"], ["bmap", "sstr 2", "bytes x6161", "fin str", "cmap"]):
        x.add([Case("W", p + ["nil"], GROW + [dict(sink="flush", cap=64)], need={"builder"})])

def misuse(r, x):
    """a correct program with a random slip, then more calls"""
    o = Opt(maxdepth=3, maxlen=12, ts=False)
    p = []
    for _ in range(r.choice([1, 2])): p += value(r, o)
    p = p[:60]
    ins = ["nil", "sarr 1", "smap 1", "sstr 2", "sbin 0", "sext 1 1", "bytes x41", "bytes x", "fin array", "fin map", "fin str", "fin bin", "fin ext",
           "barr", "bmap", "carr", "cmap", "flushmsg", "str x6161", "kv x61 u8 1", "tag missing 0", "fin array type"]
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(p) + 1)
        k = r.random()
        if k < .4: p = p[:i] + [r.choice(ins)] + p[i:]
        elif k < .7 and i < len(p): p = p[:i] + p[i+1:]
        elif k < .85 and i < len(p): p = p[:i] + [p[i]] + p[i:]
        elif i + 1 < len(p): p = p[:i] + [p[i+1], p[i]] + p[i+2:]
    return p

@check("C05", level="model_checking")
def c05(x):
    r = x.r
    def use(ctx, out):
        for p in progs_of(out):
            # a few calls after the last one show that a flagged writer stays flagged and silent
            q = p + ["nil", "sarr 1"][: r.randrange(3)]
            ctx.add([Case("W", q, [dict(sink="flush", cap=64)], need=needs(q) | {"trk"})])
    x.models.append(dict(module="MCMisuseW.tla", env=dict(MC_DEPTH=str(x.n(2, 3)), MC_N=str(x.n(2, 2))), workers=1, use=use))
    for _ in range(x.n(1500, 40000)):
        p = misuse(r, x)
        x.add([Case("W", p, [dict(sink=r.choice(["flush", "grow", "fixed"]), cap=4096)], need=needs(p) | {"trk"})])
    for _ in range(x.n(200, 3000)):
        p = balance(value(r, Opt(maxdepth=4, maxlen=20)))
        x.add([wcase(p, [dict(sink="flush", cap=4096)])])
    # detected without tracking too
    for p in (["bmap", "nil", "cmap"], ["barr"], ["barr", "nil", "flushmsg"], ["bmap", "bmap", "cmap"], ["barr", "barr", "carr"], ["tag missing 0"]):
        x.add([Case("W", p + ["nil"], GROW + [dict(sink="flush", cap=64)], need=needs(p))])
    def odd(depth):
        m = r.random() < .6; o = ["bmap" if m else "barr"]
        n = r.randrange(5)
        if m and r.random() < .6: n += n % 2
        for _ in range(n):
            if depth and r.random() < .5: o += odd(depth - 1) if r.random() < .8 else ["sarr 2", "nil", "u8 200", "fin array"] if r.random() < .5 else ["smap 1", "nil", "nil", "fin map"]
            else: o.append(r.choice(["nil", "u32 70000", "cstr rBB*0", "str r61*40", "int -5"]) if r.random() < .9 else "repnil 2")
        return o + ["cmap" if m else "carr"]
    for _ in range(x.n(250, 4000)):
        p = odd(r.choice([1, 2, 3]))
        if r.random() < .3: p = ["sarr 2"] + p + ["nil", "fin array"]
        x.add([Case("W", p + ["nil", "query"], [dict(sink=r.choice(["grow", "flush"]), cap=64)], need=needs(p))])

@check("C06", level="model_checking")
def c06(x):
    r = x.r
    errs = ["io", "invalid", "unsupported", "type", "too_big", "memory", "bug", "data", "eof"]
    # the sink fails, or the application gives up, at every fill level of the smallest buffer
    after = ["nil", "flushmsg", "u32 70000", "bin r61*40", "query", "flag data", "str r62*3", "carr", "fin str", "barr"]
    def use(ctx, out):
        ps, fs = progs_of(out), progs_of(out, "FAIL")
        if not fs: raise Exception("the model printed no failures")
        for p in (fs if x.thorough else r.sample(fs, min(500, len(fs)))):
            q = [l for l in r.sample(after, 3) if l not in ("carr", "fin str", "barr") or r.random() < .5]
            x.add([wcase(p[1:] + q, [dict(sink="flush", cap=32, ferr=int(p[0]), fer=r.choice(errs))])])
        for p in (ps if x.thorough else r.sample(ps, min(300, len(ps)))):
            x.add([wcase(p + ["flag " + r.choice(errs)] + r.sample(after, 2), [dict(sink="flush", cap=32)])])
    x.models.append(dict(module="MCFlush.tla", env=dict(MC_FULL=str(x.n(0, 1))), workers=1, use=use, timeout=x.n(400, 3000)))
    sinks = [dict(sink="flush", cap=33), dict(sink="fixed", cap=40), dict(sink="grow"), dict(sink="file", close=1), dict(sink="flush", cap=64, eh=0), dict(sink="fixed", cap=9000)]
    for i in range(x.n(400, 8000)):
        p = balance(value(r, Opt(maxdepth=3, maxlen=r.choice([10, 60, 300])))) or ["nil"]
        q = list(p)
        for _ in range(r.choice([1, 2, 3])): q.insert(r.randrange(len(q) + 1), "flag " + r.choice(errs))
        e = [r.choice(sinks), r.choice(sinks)]
        x.add([wcase(q, e)])
        # failing flush functions
        fl = ["flushmsg" if r.random() < .3 and l == "nil" else l for l in p]
        x.add([wcase(p, [dict(sink="flush", cap=r.choice([32, 40, 64]), ferr=r.randrange(1, 7), fer=r.choice(errs)) for _ in range(4)])])
        # out of room, then more
        x.add([wcase(p + p, [dict(sink="fixed", cap=r.randrange(1, 60)), dict(sink="fixed", cap=r.randrange(1, 400), eh=0)])])
        if i % 8 == 0: x.add([wcase(p, [dict(sink="flush", cap=r.choice([0, 1, 9, 31]), eh=r.randrange(2)), dict(sink="flush", cap=32)])])
        if i % 4 == 0: x.add([wcase(p, [dict(sink="fixed", e0=r.choice(errs)), dict(sink="fixed", e0=r.choice(errs), td=0), dict(sink="fixed", td=0)])])
    for _ in range(x.n(300, 5000)):
        p = misuse(r, x)
        x.add([Case("W", p + ["flag " + r.choice(errs)] + p[:10], [dict(sink="flush", cap=40), dict(sink="grow")], need=needs(p) | {"trk"})])

from . import reg_r
reg_r.register(check)
from . import reg_t
reg_t.register(check)
from . import reg_m
reg_m.register(check)
from . import reg_f
reg_f.register(check)
from . import reg_x
reg_x.register(check)
from . import reg_i
reg_i.register(check)
