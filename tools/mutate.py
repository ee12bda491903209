#!/usr/bin/env python3
"""Measures the sensitivity of the generated programs: small mechanical changes of
the code, and whether any program of any check behaves differently under them (an
accepted trace that changes is then judged by the specification).
  mutate.py base                 run every check's programs on /repo, keep the logs
  mutate.py run N SEED           N random mutants; survivors go to /tmp/mut/survivors.jsonl
  mutate.py all FILE:LINE...     every mutant of the given lines
"""
import sys, os, re, json, random, pickle, hashlib, subprocess, shutil, collections, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
W = "/tmp/mut"
CFGS = ["dbg", "rel"]
def load(): return pickle.load(open(W + "/cases.pkl", "rb"))
def signature(repo, out, cfgs, every="1"):
    """runs all programs with the sources of repo -> {(case,env,cfg): hash}; in a child process"""
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "_sig", ",".join(cfgs)],
                       env=dict(os.environ, VP_REPO=repo, VP_OUT=out, MUT_EVERY=every), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: return None, r.stderr.decode(errors="replace")[-500:]
    return pickle.load(open(out + "/sig.pkl", "rb")), ""
def _sig(cfgs):
    from vp import core, build as B
    cases = load()
    for i, c in enumerate(cases): c.id = "c%d" % i
    sig = {}
    ev = int(os.environ.get("MUT_EVERY", "1"))
    cases = [c for i, c in enumerate(cases) if ev == 1 or (i * 2654435761 >> 7) % ev == 0]
    os.makedirs(B.BUILD, exist_ok=True)
    from concurrent.futures import ThreadPoolExecutor
    sh = []
    for n in cfgs:
        exe = B.build(n); c = B.CONFIGS[n]
        items = []
        for k in cases:
            if not core.case_ok(k, n, c): continue
            envs = [(i, e) for i, e in enumerate(k.envs) if core.env_ok(e, c)]
            if envs: items.append((k, envs))
        ns = int(os.environ.get("MUT_SH", "4"))
        sh += [(n, core.Shard(exe, items[s::ns], 120)) for s in range(ns)]
    with ThreadPoolExecutor(int(os.environ.get("MUT_SH", "4"))) as ex: list(ex.map(lambda x: x[1].run(), sh))
    for n, s in sh:
        for (c, e), log in s.logs.items(): sig[(c, e, n)] = hash_(log)
        for c, e, what, _ in s.crashes: sig[(c, e, n)] = "CRASH " + what
    pickle.dump(sig, open(os.environ["VP_OUT"] + "/sig.pkl", "wb"))
def hash_(log):
    log = re.sub(r'"pk":\d+', '', log)
    return hashlib.md5(log.encode()).hexdigest()
def base():
    os.makedirs(W, exist_ok=True)
    from vp import core, check, registry as reg
    cases, owner = [], []
    for pid in sorted(reg.CHECKS):
        ctx = check.Ctx(pid)
        reg.CHECKS[pid]["gen"](ctx)
        for m in ctx.models:
            if not m.get("use"): continue
            rc, out = core.tlc(m["module"], m.get("cfg", m["module"].replace(".tla", ".cfg")), env=m.get("env"), workers=m.get("workers", 8))
            m["use"](ctx, out)
        cases += ctx.cases; owner += [pid] * len(ctx.cases)
        print(pid, len(ctx.cases), flush=True)
    for c in cases: c.cfgs = c.cfgs
    pickle.dump(cases, open(W + "/cases.pkl", "wb")); pickle.dump(owner, open(W + "/owner.pkl", "wb"))
    os.makedirs(W + "/base", exist_ok=True)
    s = {}
    t = time.time()
    from vp import build as B
    s, err = signature("/repo", W + "/base", list(B.NAMES)); assert s, err
    s2, err = signature("/repo", W + "/base", list(B.NAMES))
    flaky = [k for k in s if s2.get(k) != s[k]]
    print(len(s), "runs,", len(flaky), "unstable", [k for k in flaky[:5]], time.time() - t)
    for k in flaky: del s[k]
    pickle.dump(s, open(W + "/base.pkl", "wb"))
OPS = [("<=", "<"), ("<", "<="), (">=", ">"), (">", ">="), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+", "-"), ("-", "+"), ("|", "&"), ("&", "|"), ("true", "false"), ("false", "true"), ("<<", ">>"), ("+=", "-="), ("-=", "+="), ("*", "+")]
def mutants_of(line):
    s = line.strip()
    if not s or s[0] in "#/*}" or re.match(r"(mpack_assert|mpack_log|MPACK_STATIC_ASSERT|mpack_break|case |default|typedef|\"|%|static|MPACK_\w+ |MPACK_NO|extern|struct|else$|do )", s) or "mpack_log" in s: return
    if "MPACK_UNUSED" in s: return
    toks = list(re.finditer(r"<<|>>|<=|>=|==|!=|&&|\|\||\+\+|--|->|\+=|-=|\|=|&=|[<>+\-|&*!=]|\b\d+\b|\b0x[0-9a-fA-F]+\b|\btrue\b|\bfalse\b|\"(?:[^\"\\]|\\.)*\"", line))
    for m in toks:
        t = m.group()
        for a, b in OPS:
            if t != a: continue
            if a in "+-&*|" and (not re.search(r"[\w)\]] *$", line[:m.start()]) or not line[m.end():m.end() + 1] == " "): continue
            if a == "*" and not line[m.start() - 1] == " ": continue
            yield line[:m.start()] + b + line[m.end():]
        if re.fullmatch(r"\d+|0x[0-9a-fA-F]+", t):
            v = int(t, 0)
            yield line[:m.start()] + str(v + 1) + line[m.end():]
            if v > 0: yield line[:m.start()] + str(v - 1) + line[m.end():]
    m = re.match(r"^(\s*)(?:\} )?(?:else )?(if|while) \((.*)\)( \{)?$", line)
    if m and m.group(3).count("(") == m.group(3).count(")"):
        yield line.replace("(" + m.group(3) + ")", "(!(" + m.group(3) + "))", 1)
    if re.match(r"^\s+(\w[\w\->.\[\]]* ?([-+|&]?=) .*;|\+\+.*;|--.*;|\w+\(.*\);|\*?\w[\w\->.]*(\+\+|--);|return;|break;|continue;)$", line) and not re.match(r"^\s+(const |char |size_t |uint|int|bool |mpack_\w+_t )", line):
        yield re.match(r"^\s*", line).group() + ";"
    m = re.match(r"^(\s+)return (.+);$", line)
    if m and m.group(2) in ("true", "false", "0", "NULL"): yield m.group(1) + "return %s;" % {"true": "false", "false": "true", "0": "1", "NULL": "NULL"}[m.group(2)]
def universe():
    u = []
    for f in sorted(os.listdir("/repo/src/mpack")):
        if f in ("mpack.h", "mpack-platform.h"): continue
        L = open("/repo/src/mpack/" + f).read().split("\n")
        com = False
        for i, l in enumerate(L):
            if "/*" in l: com = True
            if com:
                if "*/" in l: com = False
                continue
            if f.endswith(".h") and not l.startswith("    "): continue
            if l.startswith(" ") and not l.rstrip().endswith("\\"):
                for n in set(mutants_of(l)):
                    if n != l: u.append((f, i, l, n))
    return u
def one(m, k):
    f, i, old, new = m
    d = "%s/w%d" % (W, k)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree("/repo/src", d + "/src")
    p = d + "/src/mpack/" + f
    L = open(p).read().split("\n"); assert L[i] == old
    L[i] = new; open(p, "w").write("\n".join(L))
    basesig = BASE
    try:
        for every, cfgs in (("12", CFGS), ("1", CFGS)):
            s, err = signature(d, d + "/out", cfgs, every)
            if s is None: break
            diff = [q for q in s if q in basesig and basesig[q] != s[q]]
            if diff: return "killed", diff
        if s is None: return ("nobuild" if "does not build" in err or "does not link" in err else "toolerr " + err), None
        diff = [q for q in s if q in basesig and basesig[q] != s[q]]
        miss = [q for q in basesig if q[2] in CFGS and q not in s]
        if diff or miss: return "killed", (diff or miss)
        others = ["size", "nolib", "track", "noext", "nofloat", "nodouble", "nomalloc", "cxx", "nobuilder"]
        s, err = signature(d, d + "/out", others)
        if s is None: return "killed?", err
        diff = [q for q in s if q in basesig and basesig[q] != s[q]]
        if diff: return "killed", diff
        return "survived", None
    finally:
        shutil.rmtree(d, ignore_errors=True)
def run(ms, par=3):
    global BASE
    BASE = pickle.load(open(W + "/base.pkl", "rb")); owner = pickle.load(open(W + "/owner.pkl", "rb"))
    from concurrent.futures import ThreadPoolExecutor
    os.environ["MUT_SH"] = "3"
    cnt = collections.Counter()
    def go(a):
        k, m = a
        try: r, x = one(m, k)
        except Exception as e: r, x = "error %r" % e, None
        cnt[r.split(" ")[0]] += 1
        own = collections.Counter(owner[int(q[0][1:])] for q in x) if isinstance(x, list) else {}
        with open(W + "/log.jsonl", "a") as o: o.write(json.dumps(dict(f=m[0], line=m[1] + 1, old=m[2].strip(), new=m[3].strip(), r=r, by=dict(own))) + "\n")
        if r != "killed" and r != "nobuild": print(r, m[0], m[1] + 1, "|", m[2].strip(), "=>", m[3].strip(), flush=True)
    with ThreadPoolExecutor(par) as ex: list(ex.map(go, enumerate(ms)))
    print(dict(cnt))
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "_sig": _sig(a[1].split(","))
    elif a[0] == "base": base()
    elif a[0] == "count": print(len(universe()))
    elif a[0] == "run":
        u = universe(); random.Random(int(a[2])).shuffle(u); run(u[:int(a[1])])
    elif a[0] == "slice":
        u = universe(); random.Random(int(a[1])).shuffle(u); run(u[int(a[2]):int(a[3])])
    elif a[0] == "all":
        want = set(a[1:]); run([m for m in universe() if "%s:%d" % (m[0], m[1] + 1) in want])
