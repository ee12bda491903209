"""Composition: writing then reading back, and the same calls in every build configuration."""
import json, random, re
from .core import Case
from . import core, hdr
from .gen_w import *
from .gen_r import *
from .gen_t import tcase, visit, DATA, pools

def xcase(prog, envs):
    p = ["objbytes x07" if l in ("objbytes xdc0000", "objbytes xd90161") else l for l in prog]
    c = Case("X", p, envs, {"correct": True}, needs(p) | {"malloc"})
    return c

def sig(case, c):
    """configurations with the same signature must behave the same"""
    if c["m32"] and case.kind == "T" and hdr.huge(hdr.data_bytes(case.prog[0].split(" ")[1])): return "m32"    # may be too big there
    return () if case.note == "all" else (c["ext"], c["flt"], c["dbl"]) + ((c["trk"],) if case.note == "misuse" else ())

FREE = ("pk", "av", "pv", "wb", "sf", "se", "af", "nb", "sp")
def strip(log):
    log = re.sub(r'("op":"destroy","r":"(?!ok).*),"out":"x[0-9a-f]*"', r"\1", log)
    for f in FREE: log = re.sub(r',"%s":("[^"]*"|-?\w+)' % f, "", log)
    return log
def same_traces(res, pairs):
    """one trace per group of runs of the same program and environment: the distinct observations of each call"""
    out, info, equal = [], {}, 0
    for (cid, eid), by in pairs:
        case = res.byid[cid]
        groups = {}
        for n, tid in by.items(): groups.setdefault(sig(case, core.B.CONFIGS[n]), {}).setdefault(res.traces[tid]["log"], []).append(n)
        for g, logs in groups.items():
            equal += sum(len(v) for v in logs.values()) - 1
            if len({strip(l) for l in logs}) == 1: continue
            ls = [[l for l in log.split("\n") if l] for log in logs]
            k = max(len(l) for l in ls)
            evs = []
            for i in range(k):
                v = []
                for l in ls:
                    o = json.loads(l[i]) if i < len(l) else {"op": "nothing"}
                    if o not in v: v.append(o)
                evs.append(json.dumps({"op": "same", "l": v}))
            t = dict(id=len(out), h={"k": "S"}, log="\n".join(evs))
            info[t["id"]] = (cid, eid, [v[0] for v in logs.values()])
            out.append(t)
    return out, info, equal
def same(ctx, res):
    ts, info, equal = same_traces(res, res.where.items())
    ctx.notes.append("%d runs compared with the same run in another configuration, %d groups of them in full" % (equal, len(ts)))
    rej, _ = core.check_traces(ts)
    bad = []
    for tid, (pos, st) in sorted(rej.items())[:40]:
        cid, eid, cfgs = info[tid]
        case = res.byid[cid]; env = case.envs[eid]
        c = core.Case(case.kind, case.prog, [env], case.h, case.need, None, case.note)
        r2 = core.run_cases([c], cfgs)
        t2, i2, _ = same_traces(r2, r2.where.items())
        j2, _ = core.check_traces(t2)
        if not j2: continue
        pos = min(p for p, _ in j2.values())
        t = next(t for t in t2 if t["id"] in j2)
        bad.append(dict(config="+".join(cfgs), env=env, kind=case.kind, program=case.prog, note="configurations differ",
                        rejected_event=json.loads(t["log"].split("\n")[pos - 1]), event_index=pos, spec_state=None, log=t["log"].split("\n")[:200]))
    return bad

def register(check):

    @check("C28")
    def c28(x):
        from .registry import balance, builder_doc, FILES
        r = x.r
        sinks = lambda: [dict(sink="grow"), dict(sink="flush", cap=r.choice([32, 33, 40, 64])), dict(sink="fixed", cap=20000), r.choice([f for f in FILES if f.get("close") != 0])]
        def doc1(ver=5):
            o = Opt(maxdepth=r.choice([1, 2, 3, 4]), maxlen=r.choice([5, 40, 300]), builder_p=r.choice([0, .3, .6, 1]), ver=ver, ext=ver == 5)
            return balance(value(r, o))
        for i in range(x.n(600, 20000)):
            p = []
            for _ in range(r.choice([1, 1, 1, 2, 5])): p += doc1()
            if len(p) > 500: p = balance(p[:500])
            if p: x.add([xcase(p, [r.choice(sinks())] if r.random() < .6 else sinks())])
        for i in range(x.n(120, 3000)):
            p = balance(["version 4"] + doc1(4) + doc1(4))
            if len(p) < 500: x.add([xcase(p, [r.choice(sinks())])])
        for i in range(x.n(200, 4000)):
            p = builder_doc(r, r.choice([1, 2, 3, 4, 5, 6]), r.choice([0, 5, 31, 32, 60, 200, 3000]))
            x.add([xcase(p + ["nil"], [dict(sink="grow"), dict(sink="flush", cap=r.choice([32, 40]))])])
        for v in INTS + NEGS + UBIG:
            x.add([xcase([o], [dict(sink="fixed", cap=64)]) for o in int_ops(v) + gen_ops(v)])
        for n in list(range(0, 70)) + [127, 128, 254, 255, 256, 257, 3000, 65535, 65536]:
            for o in ("str", "bin"): x.add([xcase(["%s %s" % (o, rbytes(r, n)), "u8 1"], [dict(sink="grow")])])
            x.add([xcase(["ext %d %s" % (r.randrange(-128, 128), rbytes(r, n)), "u8 1"], [dict(sink="grow")])])
            if n < 300 or x.thorough:
                for o in (["sarr %d" % n] + ["nil"] * n + ["fin array"], ["smap %d" % n, "repnil %d" % (2 * n), "fin map"], ["barr", "repnil %d" % n, "carr"], ["bmap", "repnil %d" % (2 * n), "cmap"]): x.add([xcase(o, [dict(sink="grow")])])
        for d in list(range(1, 40)) + [100, 150]:
            x.add([xcase(["barr"] * d + ["carr"] * d, [dict(sink="grow")]), xcase(["sarr 1"] * d + ["nil"] + ["fin array"] * d, [dict(sink="grow")]), xcase(["bmap", "nil"] * d + ["nil"] + ["cmap"] * d, [dict(sink="grow")])])
        for f in F32: x.add([xcase(["float 0x%x" % f, "tag float 0x%x" % f], [dict(sink="grow")])])
        for f in F64: x.add([xcase(["double 0x%x" % f, "tag double 0x%x" % f], [dict(sink="grow")])])
        for s in (0, 1, 2**32 - 1, 2**32, 2**34 - 1, 2**34, -1, 2**63 - 1, -2**63):
            for ns in (0, 1, 999999999): x.add([xcase(["ts %d %d" % (s, ns)], [dict(sink="grow")])])

    @check("C25", need_all_configs=True)
    def c25(x):
        from .registry import balance, builder_doc
        from .reg_r import cutp
        from .reg_t import deep, wide
        r = x.r
        x.post.append(same)
        noext = dict(ext=False, ts=False)
        def put(c, plain):
            if plain and not any(l.startswith(("f ", "nf ")) for l in c.prog): c.note = "all"
            if plain is None: c.note = "misuse"
            x.add([c])
        # writing
        for i in range(x.n(160, 6000)):
            plain = r.random() < .5
            o = Opt(maxdepth=r.choice([1, 2, 3, 4]), maxlen=r.choice([5, 40, 300]), builder_p=r.choice([0, 0, .5]), **(noext if plain else {}))
            p = balance(value(r, o))
            if r.random() < .2: p = builder_doc(r, r.choice([1, 2, 3]), r.choice([5, 60, 200]))
            if r.random() < .2: p = p + ["flag " + r.choice(["io", "data", "too_big"])] + p[:4]
            put(wcase(p or ["nil"], [dict(sink="grow"), dict(sink="flush", cap=r.choice([32, 35, 64])), dict(sink="fixed", cap=r.choice([20000, 40, 9])), dict(sink="file", close=1)]), plain)
        for v in INTS + NEGS + UBIG:
            for o in int_ops(v): put(wcase([o], [dict(sink="fixed", cap=64)]), True)
        for n in (0, 1, 15, 16, 31, 32, 255, 256, 65535, 65536):
            for o in (["str " + rbytes(r, n)], ["bin " + rbytes(r, n)], ["sarr %d" % n, "repnil %d" % n, "fin array"], ["barr", "repnil %d" % n, "carr"]): put(wcase(o, [dict(sink="grow"), dict(sink="flush", cap=32)]), True)
        # reading
        E = lambda: [dict(src="mem"), dict(src="stream", buf=r.choice([32, 64, 300]), ch=r.choice(["1", "7", "3,1,9", "1000000"]), skip=r.randrange(2))]
        for i in range(x.n(220, 8000)):
            plain = r.random() < .6
            nd = doc(r, DOpt(maxdepth=r.choice([0, 1, 2, 3, 4]), maxlen=r.choice([5, 40, 300]), **({"ext": False} if plain else {})))
            d = nd.enc()
            f = r.random() < .5
            p = cutp(read_ops(r, nd, ROpt(pdisc=.05, inplace=32, alloc=r.random() < .5, float_cfg=f)), 150)
            k = r.random()
            if k < .5: put(rcase(d, p, E()), plain)
            elif k < .75: put(rcase(d[:r.randrange(len(d))], p, E()), plain)
            else:
                b = bytearray(d); b[r.randrange(len(b))] = r.choice([0xc1, 0xdd, 0xdb, 0xc6, 0xc9, 0xff, r.randrange(256)])
                put(rcase(bytes(b), p + ["flag data"], E(), correct=None), None)
        for b in range(256):
            for t in r.sample(TYPED, x.n(4, len(TYPED))) + ["tag", "discard", "l str", "b str_buf 40", "c map", "c array"]:
                put(rcase(bytes([b]) + bytes(range(1, 24)), [t, "flag data"], [dict(src="mem")]), not (0xc7 <= b <= 0xc9 or 0xd4 <= b <= 0xd8) and not t.startswith("f "))
                if b in (0xc1, 0xcc, 0xd9, 0xda, 0xdb, 0xc4, 0xdc): put(rcase(bytes([b, 0, 0, 0, 1])[:r.randrange(1, 6)], [t, "flag data"], [dict(src="mem")]), not t.startswith("f "))
        # trees
        for i in range(x.n(130, 5000)):
            plain = r.random() < .6
            nd = doc(r, DOpt(maxdepth=r.choice([1, 2, 3, 4]), maxlen=r.choice([5, 40, 300]), **({"ext": False} if plain else {})))
            d = nd.enc(); m = nd.count()
            if r.random() < .3:
                bb = bytearray(d); bb[r.randrange(len(bb))] = r.choice([0xc1, 0xdd, 0xdb, 0xc6, 0xc9, 0xff, r.randrange(256)]); d = bytes(bb)
                put(tcase(d, ["parse", "root 0", "dump 0", "parse"], [dict(src="data"), dict(src="pool", pool=r.choice([1, 5, 200])), dict(src="stream", ch=r.choice(["1", "7", "1000000"]))]), False)
            else:
                b2 = [14]
                put(tcase(d, ["parse", "root 0", "dump 0"] + visit(r, nd, 0, None, b2)[:40], [dict(src="data"), dict(src="pool", pool=m), dict(src="pool", pool=max(1, m - 1)), dict(src="stream", ch=r.choice(["1", "7", "1000000"]))]), plain)
