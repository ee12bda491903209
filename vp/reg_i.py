"""Independence: programs on separate objects that run at once, on every schedule of their calls and callbacks."""
import re
from .core import interleaved, env_ok, B
from .gen_r import *
from .gen_t import tcase
from .gen_w import wcase, scalar
from .gen_w import Opt as WOpt

SOURCES = ("C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C17", "C18", "C20", "C21", "C22", "C23", "C24", "C26", "C27", "C28")

LEAVES = ("ts", "ts", "num", "dbl", "str", "bin", "ext")

def register(check):
    @check("C29")
    def c29(x):
        from .check import Ctx
        from . import registry as reg
        r = x.r
        x.cfgs = list(B.INTER)
        pool = {}
        for pid in SOURCES:
            c = Ctx(pid); c.thorough = False
            reg.CHECKS[pid]["gen"](c)
            ok = [k for k in c.cases if sum(map(len, k.prog)) < 1200 and len(k.prog) < 80 and k.cfgs is None and not any(l.startswith("huge") for l in k.prog)]
            by = {}
            for k in ok: by.setdefault(k.kind, []).append(k)
            for kind, l in by.items(): pool.setdefault(kind, []).append(l)
        def one(kind):
            k = r.choice(r.choice(pool[kind]))
            e = dict(r.choice(k.envs))
            return k, e
        KINDS = "WWRRTTMX"
        def use(ctx, out):
            from .registry import progs_of
            scheds = sorted({"".join(p) for p in progs_of(out)})
            if len(scheds) < 100: raise Exception("the model printed too few schedules")
            for i in range(x.n(2200, 30000)):
                a = r.choice(KINDS)
                p = one(a), one(a if r.random() < .6 else r.choice(KINDS))
                envs = [dict(sched=s) for s in r.sample(scheds, x.n(4, 12))] + [dict(sched=r.choice(["01", "10", "0011", "001", "0" * r.randrange(2, 40) + "1" * r.randrange(2, 40)]))]
                if i % 2 == 0: envs.append(dict(mode="free"))
                x.add([interleaved(p, envs)])
            # the same sort of thing again and again on both sides, in small pieces: whatever room a
            # call needs for itself is in use when the other takes its turn
            for _ in range(x.n(220, 3000)):
                a = r.choice("RRRTW"); k = r.choice(LEAVES)
                if a == "R" and r.random() < .15: k = "enum"
                ch = r.choice(["1", "2", "3", "7"])
                def many():
                    if a == "W":
                        return wcase(sum((["ts %d %d" % (r.choice([1, 2**32, 2**34, -1]) + r.randrange(99), r.choice([0, 5]))] if k == "ts" else scalar(r, WOpt()) for _ in range(8)), []), []), dict(sink="flush", cap=32)
                    if k == "enum":
                        d, p = b"", ["keynew"]
                        for _ in range(8):
                            l = r.sample([b"a", b"b", b"c", b"ab", b""], r.choice([2, 2, 3])); b = r.choice(l); d += len_hdr(r, "str", len(b)) + b
                            p += [r.choice(["enum ", "enum ", "enumopt ", "keycstr "]) + ",".join(hexs(q) for q in l)]
                            if p[-1][0] == "k": p.append("keynew")
                        return rcase(d, p, []), dict(src="stream", buf=r.choice([32, 33, 40]), ch=ch)
                    nds = [LEAF[k]() for _ in range(r.choice([3, 6, 9]))]
                    if a == "R":
                        o = ROpt(pdisc=.1, inplace=32)
                        return rcase(b"".join(n.enc() for n in nds), sum((read_ops(r, n, o) for n in nds), []), []), dict(src="stream", buf=r.choice([32, 33, 40]), ch=ch)
                    nd = mk_array(r, [mk_array(r, [n]) if r.random() < .3 else n for n in nds])
                    return tcase(nd.enc(), ["parse", "root 0", "dump 0"], []), dict(src="stream", ch=ch)
                LEAF = dict(ts=lambda: mk_ts(r, r.choice([0, 2**32 - 99, 2**34, -99, 2**40]) + r.randrange(99), r.choice([0, 7, 999999999]), r.random() < .3),
                            num=lambda: mk_int(r, r.choice(INTS + NEGS + UBIG)), 
                            str=lambda: mk_str(r, r.choice([0, 1, 5, 31, 32, 40]), r.choice(["text", "nul"])),
                            bin=lambda: (lambda b: Node("bin", len_hdr(r, "bin", len(b)), len(b), b))(payload(r, r.choice([0, 1, 4, 30, 60]), "raw")),
                            ext=lambda: (lambda b: Node("ext", len_hdr(r, "ext", len(b), 5), len(b), b, x=5))(payload(r, r.choice([1, 4, 16, 17]), "raw")))
                LEAF["dbl"] = lambda: (lambda v: Node("double", b"\xcb" + be(v, 8), v))(r.choice(F64))
                x.add([interleaved((many(), many()), [dict(sched=s) for s in ["01", "10", "0011"] + r.sample(scheds, 2)] + [dict(mode="free")])])
            # every schedule of some pairs
            for a in ("WW", "RR", "TT", "WR", "RT", "MM"):
                p = one(a[0]), one(a[1])
                x.add([interleaved(p, [dict(sched=s) for s in (scheds if ctx.thorough else r.sample(scheds, 150))])])
        x.models.append(dict(module="MCInter.tla", env=dict(MC_FULL=str(x.n(0, 0))), use=use, timeout=x.n(400, 3000)))
