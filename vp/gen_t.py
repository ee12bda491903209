"""Generators of tree programs."""
import random
from .core import Case
from .gen_r import *
from .gen_w import INTS, NEGS, UBIG, F32, F64, LENS, hexs

def tneeds(prog):
    n = set()
    for l in prog:
        w = l.split(" ")
        if w[0] in ("nts", "nx"): n.add("ext")
        if w[0] == "na": n.add("malloc")
        if w[0] == "nf":
            if w[1] == "raw_float": n.add("noflt")
            elif w[1] == "raw_double": n.add("nodbl")
            else: n.add("flt" if "float" in w[1] else "dbl")
    return n
FN1 = ("nn", "nf", "nts", "nl", "nd", "nc", "na", "nu")
def sane(prog):
    """only nodes that the current tree has handed out are used"""
    have, out = set(), []
    for l in prog:
        w = l.split(" ")
        op = w[0]
        i = 2 if op in FN1 or (op == "flag" and len(w) > 2) or op == "look" else 1
        if op in ("parse", "try"): have = set()
        elif op in ("root", "got"): have.add(w[1])
        elif op in ("limits", "flag") and i == 1: pass
        else:
            if w[i] not in have:
                if "0" not in have: continue
                w[i] = "0"
            t = w[3] if op in ("aat", "kat", "vat") else w[4] if op == "look" and len(w) > 4 else None
            if t: have.add(t)
        out.append(" ".join(w))
    return out
def tcase(data, prog, envs, needs=(), **k):
    prog = sane(prog)
    d = data if isinstance(data, str) else hexs(data)
    c = Case("T", ["data " + d] + prog, envs, need=tneeds(prog) | set(needs), **k)
    c.h = dict(c.h, correct=True)
    return c

DATA = [dict(src="data")]
def pools(*ns): return [dict(src="pool", pool=max(1, n)) for n in ns]
CH = ["1", "2", "3", "7", "1,2", "5,1,30", "16", "31", "33", "1000000", "40,1", "1,40"]
CHZ = ["0,1", "1,0", "2,0,0,1", "3,0", "7,0,1", "0,16", "1000000", "1000000,0", "5,0,1,0,30", "32,0", "33,0,1", "1,1,1,0"]
def tstreams(r, k, **kw):
    o = []
    for _ in range(k):
        e = dict(src="stream", ch=r.choice(CH))
        if r.random() < .5: e["eos"] = r.choice(["-1", "0", "eof", "data"])
        e.update(kw)
        o.append(e)
    return o
def tfiles(r, n, k):
    return [dict(src="file", close=r.choice([1, 0, "name"]), fmax=r.choice([0, 0, n, n + 1, 2**40]), shortn=r.choice([0, 0, 1, 7])) for _ in range(k)]
def anysrc(r, n, cnt, k=2):
    """k sources holding the same n bytes with at most cnt objects per message"""
    return r.sample(DATA + pools(cnt, cnt + 5) + tstreams(r, 2) + (tfiles(r, n, 1) if n else []), k)

# ---- accessors ----
NUMF = ["u8", "u16", "u32", "u64", "uint", "i8", "i16", "i32", "i64", "int"]
ALLACC = (["nn %s @" % f for f in NUMF] + ["nf %s @" % f for f in ("float", "double", "float_strict", "double_strict")] +
          ["nts full @", "nts sec @", "nts nsec @", "nx @"] + ["nl %s @" % f for f in ("bin_size", "data_len", "strlen", "array_length", "map_count")] +
          ["nd str @", "nd data @", "nd bin_data @"] + ["nc %s @ %d" % (f, n) for f in ("data", "utf8", "cstr", "utf8_cstr") for n in (1, 8, 70)] +
          ["na %s @ %d" % (f, n) for f in ("data", "cstr", "utf8_cstr") for n in (1, 8, 70)] + ["nu utf8 @", "nu utf8_cstr @"] +
          ["nenum @ x61,x62", "nenumopt @ x,x6162", "nnil @", "nmissing @", "ntrue @", "nfalse @", "nbool @", "ntag @", "ntype @", "isnil @", "ismissing @",
           "aat @ 0 9", "aat @ 1 9", "kat @ 0 9", "vat @ 0 9", "vat @ 3 9", "look int @ 1 9", "look int_opt @ 1 9", "look hasint @ -1", "look uint @ 1 9", "look uint_opt @ 7 9",
           "look hasuint @ 1", "look str @ x61 9", "look str_opt @ x62 9", "look hasstr @ x", "look cstr @ x61 9", "look cstr_opt @ x61 9", "look hascstr @ x61", "dump @", "flag data @"])
def acc(a, reg): return a.replace("@", str(reg))
def acc_any(r, reg): return acc(r.choice(ALLACC), reg)

def acc_ok(r, nd, reg):
    """calls that succeed on this node"""
    k, v = nd.k, nd.v
    o = ["ntag %d" % reg, "ntype %d" % reg, "isnil %d" % reg, "ismissing %d" % reg, "nenumopt %d x61,x62" % reg]
    if k == "nil": o += ["nnil %d" % reg] * 3
    elif k == "bool": o += ["nbool %d" % reg, ("ntrue %d" if v else "nfalse %d") % reg] * 2
    elif k == "int":
        f = []
        for t, w in UT:
            if 0 <= v < 2**w: f.append(t)
        for t, w in ST:
            if -2**w <= v < 2**w: f.append(t)
        o = ["nn %s %d" % (t, reg) for t in f] + [r.choice(o), "nf double %d" % reg, "nf float %d" % reg]
    elif k == "float": o += ["nf %s %d" % (f, reg) for f in ("float", "double", "float_strict", "double_strict")]
    elif k == "double": o += ["nf %s %d" % (f, reg) for f in ("float", "double", "double_strict")]
    elif k in ("str", "bin", "ext"):
        o = [r.choice(o)] + ["nl data_len %d" % reg, "nd data %d" % reg, "nc data %d %d" % (reg, v + r.choice([0, 1, 30])), "na data %d %d" % (reg, v + r.choice([0, 1]))]
        if k == "bin": o += ["nl bin_size %d" % reg, "nd bin_data %d" % reg]
        if k == "ext":
            o += ["nx %d" % reg]
            if nd.x == -1 and v in (4, 8, 12) and (v == 4 or int.from_bytes(nd.body[:4], "big") >> (0 if v == 12 else 2) <= 999999999):
                o += ["nts %s %d" % (f, reg) for f in ("full", "sec", "nsec")]
        if k == "str":
            o += ["nl strlen %d" % reg, "nd str %d" % reg]
            u, z = is_utf8(nd.body), b"\0" not in nd.body
            if u: o += ["nc utf8 %d %d" % (reg, v + r.choice([0, 2])), "nu utf8 %d" % reg]
            if z: o += ["nc cstr %d %d" % (reg, v + r.choice([1, 2])), "na cstr %d %d" % (reg, v + r.choice([1, 2])), "nenum %d x,x61,%s,x62" % (reg, hexs(nd.body))] if v < 250 else ["nc cstr %d %d" % (reg, v + 1)]
            if u and z: o += ["nc utf8_cstr %d %d" % (reg, v + r.choice([1, 9])), "na utf8_cstr %d %d" % (reg, v + 1), "nu utf8_cstr %d" % reg]
    elif k == "array": o += ["nl array_length %d" % reg] * 2
    elif k == "map": o += ["nl map_count %d" % reg] * 2
    return r.choice(o)

def keyeq(a, b):
    return a.k == b.k and a.k in ("int", "str") and (a.v == b.v if a.k == "int" else a.body == b.body)
def look_key(r, key, reg, to, form=None):
    """a lookup of a key equal to this node, or None"""
    form = form or r.choice(["", "_opt", "has"])
    mk = lambda k: "has" + k if form == "has" else k + form
    t = "" if form == "has" else " %d" % to
    if key.k == "int":
        c = []
        if -2**63 <= key.v < 2**63: c.append("int")
        if key.v >= 0: c.append("uint")
        return "look %s %d %d%s" % (mk(r.choice(c)), reg, key.v, t)
    if key.k == "str" and len(key.body) < 300:
        c = ["str"] + (["cstr"] if b"\0" not in key.body else [])
        return "look %s %d %s%s" % (mk(r.choice(c)), reg, hexs(key.body), t)
    return None

def visit(r, nd, reg, o, budget):
    """calls exploring a node held in a register; children go to higher registers"""
    ops = [acc_ok(r, nd, reg) for _ in range(r.choice([1, 1, 2]))]
    if reg + 1 >= 15: return ops
    if nd.k == "array" and nd.kids:
        idx = list(range(len(nd.kids)))
        if len(idx) > 4: idx = sorted(set([0, len(idx) - 1] + r.sample(idx, 2)))
        for i in idx:
            if budget[0] <= 0: break
            budget[0] -= 1
            ops += ["aat %d %d %d" % (reg, i, reg + 1)] + visit(r, nd.kids[i], reg + 1, o, budget)
    if nd.k == "map" and nd.kids:
        n = len(nd.kids) // 2
        idx = list(range(n))
        if n > 3: idx = sorted(set([0, n - 1] + r.sample(idx, 1)))
        for i in idx:
            if budget[0] <= 0: break
            budget[0] -= 1
            key, val = nd.kids[2 * i], nd.kids[2 * i + 1]
            uniq = sum(keyeq(key, nd.kids[2 * j]) for j in range(n)) == 1
            l = look_key(r, key, reg, reg + 1, r.choice(["", "_opt"])) if uniq and r.random() < .6 else None
            if l: ops.append(l)
            else: ops += ["kat %d %d %d" % (reg, i, reg + 1)] + visit(r, key, reg + 1, o, budget) + ["vat %d %d %d" % (reg, i, reg + 1)]
            ops += visit(r, val, reg + 1, o, budget)
    return ops

# ---- messages as MCNodes prints them: l, aN, mN (N children) ----
NODE_SIZES = [(6, 3, 12, 12), (12, 2, 8, 9), (255, 8, 2, 3)]
def node_message(toks, r):
    """the bytes of the message, the missing objects made leaves; its number of objects"""
    leaf = lambda: r.choice([b"\xc0", b"\xc3", bytes([r.randrange(128)]), bytes([r.randrange(128)]), b"\xcc\xff", b"\xa1z", b"\xa0", b"\x90", b"\x80"])
    d, need, cnt = b"", 1, 0
    for t in toks:
        need -= 1; cnt += 1
        if t == "l": d += leaf(); continue
        n = int(t[1:]); need += n
        d += len_hdr(r, "array", n) if t[0] == "a" else len_hdr(r, "map", n // 2)
    for _ in range(need): d += leaf()
    return d, cnt + need
def messages_of_nodes(x, add, quick):
    """every fill level of the pages of nodes with every next object, given to add(bytes, objects)"""
    def use(ctx, out):
        from .registry import progs_of
        ps = [p for p in progs_of(out) if p]
        for p in ctx.r.sample(ps, min(ctx.n(quick, 20000), len(ps))): add(*node_message(p, ctx.r))
    for npp, dep, tok, lev in NODE_SIZES:
        x.models.append(dict(module="MCNodes.tla", env=dict(MC_NPP=str(npp), MC_DEPTH=str(dep), MC_TOK=str(tok + x.n(0, 1)), MC_LEV=str(lev + x.n(0, 1))),
                             workers=1, use=use, timeout=x.n(400, 3000)))
