"""Running programs on the code, collecting traces, checking them with TLC."""
import collections, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B

ROOT = B.ROOT
SPEC = os.path.join(ROOT, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = min(8, os.cpu_count() or 4)

class ToolError(Exception):
    pass

class Case:
    __slots__ = ("id", "kind", "prog", "envs", "h", "need", "cfgs", "note")
    def __init__(self, kind, prog, envs=None, h=None, need=(), cfgs=None, note=None):
        self.kind, self.prog, self.envs = kind, prog, envs or [{}]
        self.h = h or {}           # extra header facts for the specification
        self.need = set(need)      # capabilities a configuration must have
        self.cfgs = cfgs           # restrict to these configurations
        self.note = note
        self.id = None

def interleaved(pairs, envs):
    """one case of two programs, each with its environment, that run at once on separate objects"""
    prog = []
    for c, e in pairs:
        prog.append("P %s%s%s" % (c.kind, " correct=1" if c.h.get("correct") else "", "".join(" %s=%s" % kv for kv in e.items())))
        prog += c.prog
    return Case("I", prog, envs, need=set().union(*[c.need for c, _ in pairs]))
def parts(case):
    """the programs of an interleaved case"""
    if case.kind != "I": return []
    out = []
    for l in case.prog:
        if l.startswith("P "):
            w = l.split(" ")
            e = dict(x.split("=", 1) for x in w[2:])
            out.append((Case(w[1], [], [e], h=dict(correct=True) if e.pop("correct", None) else {}), e))
        else: out[-1][0].prog.append(l)
    return out

# ---------------------------------------------------------------- headers --
def header(case, env, cfg):
    c = B.CONFIGS[cfg]
    g = lambda k, d: env.get(k, d)
    h = dict(case.h)
    h["k"] = case.kind
    if case.kind in ("W", "X"):
        sink = g("sink", "fixed")
        h.update(sink=sink, trk=bool(c["trk"]), eh=bool(int(g("eh", 1))), e0=g("e0", "ok"),
                 cap=int(g("cap", 64)) if sink == "fixed" else -1, flush=sink != "fixed", small=sink == "flush" and int(g("cap", 64)) < 32)
        if h.pop("correct", False): h["trk"] = True     # the same for every configuration
    elif case.kind == "M":
        h.update(ext=bool(c["ext"]), flt=bool(c["flt"]), dbl=bool(c["dbl"]), data="x")
        h.pop("correct", None)
    elif case.kind in ("R", "T"):
        from . import hdr
        h.update(hdr.header(case, env, c))
        h.pop("correct", None)
    return h

WIDE = ("inplace", "utf8inplace", "enum", "enumopt", "keyuint", "keycstr", "should")
def normal(h, log, case):
    """drops header facts that cannot matter to this run, so that equal observations fold"""
    if h["k"] == "R":
        if '"e":"ok"' in log and not re.search(r'"e":"(?!ok)', log): h["se"] = []
        if not any(l.split(" ")[0] in WIDE for l in case.prog) and h["bufsz"] >= 32: h["src"] = "mem"
        if h["src"] == "mem": h["bufsz"] = 0
    return h

# ------------------------------------------------------------------- runs --
def env_ok(env, c):
    if c["san"] == "thread" and env.get("mode") != "free": return False      # taking turns would order everything
    if (env.get("sink") == "file" or env.get("src") == "file") and not c["file"]: return False
    if env.get("sink") == "grow" and not c["malloc"]: return False
    if env.get("af") and not c["malloc"]: return False
    return True

def case_ok(case, cfg, c):
    if case.cfgs is not None and cfg not in case.cfgs: return False
    if (case.kind == "I") != bool(c["inter"]): return False
    if not all(env_ok(dict(e, mode="free"), c) for _, e in parts(case)): return False
    return all((not c.get(n[2:], 0)) if n[:2] == "no" else c.get(n, 0) for n in case.need)

def _expand(o):
    if isinstance(o, str):
        if o[:1] == "x" and re.fullmatch(r"x([0-9a-f][0-9a-f])*", o):
            return list(bytes.fromhex(o[1:]))
        return o
    if isinstance(o, list): return [_expand(v) for v in o]
    if isinstance(o, dict): return {k: _expand(v) for k, v in o.items()}
    return o

class Shard:
    """Runs a list of (case, [(envid, env)]) through one harness binary."""
    def __init__(self, exe, items, timeout):
        self.exe, self.items, self.timeout = exe, items, timeout
        self.logs = {}        # (caseid, envid) -> log text
        self.crashes = []     # (caseid, envid, text)
    def text(self, items):
        o = []
        for case, envs in items:
            o.append("C %s %s" % (case.id, case.kind))
            for i, e in envs:
                o.append("E %d %s" % (i, " ".join("%s=%s" % kv for kv in e.items())))
            for l in case.prog:
                o.append(". " + l)
            o.append("X")
        return "\n".join(o) + "\n"
    def run(self):
        items = self.items
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0:abort_on_error=0",
                   TSAN_OPTIONS="halt_on_error=1:exitcode=66", UBSAN_OPTIONS="print_stacktrace=0")
        while items:
            # on a small stack, so that recursion along the data shows
            p = subprocess.Popen(["sh", "-c", 'ulimit -s 512; exec "$0"', self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, env=env)
            try:
                out, err = p.communicate(self.text(items).encode(), timeout=self.timeout)
            except subprocess.TimeoutExpired:
                p.kill(); out, err = p.communicate()
            last = self.parse(out.decode(errors="replace"))
            if out.endswith(b"END\n"):
                return self
            if p.returncode == 3 or last is None:
                raise ToolError("harness failed: %s" % err.decode(errors="replace")[:1500])
            e = err.decode(errors="replace")
            m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", e) or re.search(r"ThreadSanitizer: (data race|[\w-]+)", e)
            what = m.group(1) if m else ("hang" if p.returncode == -14 else "exit %s" % p.returncode)
            self.crashes.append((last[0], last[1], what, e[-1500:]))
            k = next(i for i, it in enumerate(items) if it[0].id == last[0])
            items = items[k + 1:]
            if len(self.crashes) >= 6:
                return self
        return self
    def parse(self, out):
        last, cur, buf = None, None, None
        for line in out.split("\n"):
            if buf is not None:
                if line == "Z":
                    self.logs[cur] = "\n".join(buf); buf = None
                else:
                    buf.append(line)
            elif line.startswith("S "):
                _, c, e = line.split(" "); last = (c, int(e))
            elif line.startswith("B "):
                _, c, e = line.split(" "); cur = (c, int(e)); buf = []
            elif line.startswith("D "):
                _, c, e, f = line.split(" "); self.logs[(c, int(e))] = self.logs[(c, int(f))]
        return last

class Result:
    pass

def executions(case, env, cfg, log):
    """the recorded executions in a log, with their headers"""
    if case.kind == "I": each = [(c, e, l.strip("\n")) for (c, e), l in zip(parts(case), ("\n" + log).split("\n#")[1:])]
    else: each = [(case, env, log)]
    for c1, e1, log in each:
        h = normal(header(c1, e1, cfg), log, c1)
        if h["k"] == "T":            # memory use in coarse steps, so that runs fold
            log = re.sub(r'"pk":(\d+)', lambda m: '"pk":%d' % (-(-int(m.group(1)) // 16384) * 16384), log)
        yield h, log

def run_cases(cases, cfgs, timeout=300):
    """-> traces: list of dict(id,h,ev,src=[(case,env,cfg)...]) with identical runs folded."""
    exes, skipped = {}, {}
    def b(n):
        try: return n, B.build(n), None
        except B.BuildError as e: return n, None, str(e)
    with ThreadPoolExecutor(4) as ex:
        for n, exe, err in ex.map(b, cfgs):
            if exe: exes[n] = exe
            else: skipped[n] = err
    if not exes:
        raise ToolError("no configuration builds: " + next(iter(skipped.values())))
    for i, c in enumerate(cases):
        c.id = "c%d" % i
    byid = {c.id: c for c in cases}
    work = []
    for n in exes:
        c = B.CONFIGS[n]
        items = []
        for k in cases:
            if not case_ok(k, n, c): continue
            envs = [(i, e) for i, e in enumerate(k.envs) if env_ok(e, c)]
            if envs: items.append((k, envs))
        if not items: continue
        nsh = max(1, min(NPROC, len(items) // 40 + 1))
        for s in range(nsh):
            work.append((n, Shard(exes[n], items[s::nsh], timeout)))
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda w: w[1].run(), work))
    traces, bykey, where = [], {}, {}
    runs = 0; crashes = []
    for n, sh in work:
        for (cid, eid), log in sh.logs.items():
            runs += 1
            case = byid[cid]; env = case.envs[eid]
            for h, log in executions(case, env, n, log):
                key = (json.dumps(h, sort_keys=True), log)
                t = bykey.get(key)
                if t is None:
                    t = dict(id=len(traces), h=h, log=log, src=[])
                    bykey[key] = t; traces.append(t)
                where.setdefault((cid, eid), {})[n] = t["id"]
                if len(t["src"]) < 4: t["src"].append((cid, eid, n))
        for cid, eid, what, text in sh.crashes:
            case = byid[cid]; env = case.envs[eid]
            crashes.append(dict(case=case, env=env, cfg=n, what=what, text=text))
    r = Result()
    r.traces, r.runs, r.crashes, r.cases, r.byid, r.skipped, r.cfgs, r.where = traces, runs, crashes, cases, byid, skipped, list(exes), where
    r.work = work
    return r

# -------------------------------------------------------------------- TLC --
def tlc(module, cfg, env=None, workers=NPROC, heap="6g", timeout=800, extra=(), cwd=SPEC):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, **(env or {})))
        out, rc = p.stdout.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode(errors="replace"), -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(B.BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run", dir=B.BUILD)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def check_traces(traces, timeout=800):
    """-> (rejected: {trace id: (event index, state text)}, stats)"""
    if not traces: return {}, (0, 0)
    path = os.path.join(scratch(), "traces-%d.ndjson" % random.randrange(1 << 30))
    with open(path, "w") as f:
        for t in traces:
            ev = [_expand(json.loads(l)) for l in t["log"].split("\n") if l]
            f.write(json.dumps({"id": t["id"], "h": _expand(t["h"]), "ev": ev}, separators=(",", ":")) + "\n")
    rc, out = tlc("Trace.tla", "Trace.cfg", env={"TRACEFILE": path}, timeout=timeout, heap="14g")
    if "Model checking completed. No error has been found" not in out:
        keep = os.path.join(B.BUILD, "tlc-failure.txt")
        open(keep, "w").write(out); shutil.copy(path, os.path.join(B.BUILD, "tlc-failure.ndjson"))
        i = out.find("Error:")
        raise ToolError("TLC did not finish (rc %s): %s" % (rc, out[i:i + 1500] if i >= 0 else out[-1500:]))
    acc = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out))
    rej = {}
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),(.*?)>>\n(?=<<|Progress|Model|Checkpoint|\Z)', out, re.S):
        rej[int(m.group(1))] = (int(m.group(2)), re.sub(r"\s+", " ", m.group(3))[:3000])
    for i in acc: rej.pop(i, None)
    for t in traces:
        if t["id"] not in acc and t["id"] not in rej:
            raise ToolError("TLC gave no verdict for trace %s" % t["id"])
    os.unlink(path)
    return rej, stats(out)
