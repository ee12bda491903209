"""One check: model runs, generated programs on the code, trace validation, verdict, evidence."""
import concurrent.futures, json, os, random, re, sys, time, traceback
from . import core
from .core import ROOT, SEED, TIER, ToolError

EVDIR = os.path.join(core.B.OUT, "evidence")
REPLAY = os.path.join(core.B.BUILD, "replay")
KNOWN = os.path.join(ROOT, "known-findings.json")

class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.r = random.Random("%s/%d" % (pid, SEED))
        self.thorough = TIER == "thorough"
        self.cases, self.models = [], []
        self.cfgs = list(core.B.NAMES)
        self.post = []            # functions (ctx, result) -> [violation dict]
        self.notes = []
        self.exhaustive = False
        self.rule = ""
    def n(self, quick, thorough):
        return thorough if self.thorough else quick
    def add(self, cases):
        self.cases += cases

def known_for(pid):
    if not os.path.exists(KNOWN): return []
    return [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]

def describe(case, env, cfg, log, pos, state):
    lines = [l for l in (log or "").split("\n") if l]
    return dict(config=cfg, env=env, kind=case.kind, program=case.prog, note=case.note,
                rejected_event=(json.loads(lines[pos - 1]) if pos and pos <= len(lines) else None),
                event_index=pos, spec_state=state, log=lines[:400])

def matches(k, d):
    """a known finding names the failing call: operation, and regexes on program/env/log"""
    m = k["match"]
    if "op" in m and (d.get("rejected_event") or {}).get("op") != m["op"]: return False
    if "crash" in m and d.get("crash") != m["crash"]: return False
    if "event" in m and not re.search(m["event"], json.dumps(d.get("rejected_event"), sort_keys=True)): return False
    if "program" in m and not re.search(m["program"], " ; ".join(d["program"])): return False
    if "env" in m and not re.search(m["env"], json.dumps(d["env"], sort_keys=True)): return False
    return True

def corrupt(ctx, traces):
    """copies of recorded traces with one observation falsified: all must be rejected"""
    r = random.Random(7)
    pick = [t for t in traces if t["log"].count("\n") > 1]
    out = []
    for t in r.sample(pick, min(12, len(pick))):
        lines = t["log"].split("\n")
        c = [i for i, l in enumerate(lines) if '"e":"ok"' in l]
        if not c: continue
        i = r.choice(c)
        lines[i] = lines[i].replace('"e":"ok"', '"e":"eof"')
        out.append(dict(id=10**7 + len(out), h=t["h"], log="\n".join(lines)))
    return out

def confirm(ctx, case, env, cfg):
    """re-run one program in one configuration; -> (still bad, description)"""
    c = core.Case(case.kind, case.prog, [env], case.h, case.need, None, case.note)
    res = core.run_cases([c], [cfg])
    if res.crashes:
        k = res.crashes[0]
        d = describe(case, env, cfg, "", 0, "")
        d["crash"] = k["what"]; d["crash_text"] = k["text"]
        return True, d
    rej, _ = core.check_traces(res.traces)
    if rej:
        t = next(t for t in res.traces if t["id"] in rej)
        pos, st = rej[t["id"]]
        return True, describe(case, env, cfg, t["log"], pos, st)
    return False, None

def after(res, case, eid, cfg):
    """what a program does alone is right: run it again after those that went before it in the same process
    (as few as show it), for a program must not depend on what other objects did earlier"""
    for n, sh in res.work:
        if n != cfg: continue
        j = next((i for i, (k, _) in enumerate(sh.items) if k.id == case.id), None)
        if j is None: continue
        for back in (1, 4, 16, 64, 256, 10**9):
            items = sh.items[max(0, j - back):j] + [(case, [(i, e) for i, e in sh.items[j][1] if i <= eid])]
            s2 = core.Shard(sh.exe, items, sh.timeout); s2.run()
            what = next((c for c in s2.crashes if c[0] == case.id and c[1] == eid), None)
            if what:
                d = describe(case, case.envs[eid], cfg, "", 0, ""); d["crash"], d["crash_text"] = what[2:4]
            elif (case.id, eid) in s2.logs:
                tr = [dict(id=i, h=h, log=l) for i, (h, l) in enumerate(core.executions(case, case.envs[eid], cfg, s2.logs[(case.id, eid)]))]
                rej, _ = core.check_traces(tr)
                if not rej: d = None
                else:
                    i = min(rej); d = describe(case, case.envs[eid], cfg, tr[i]["log"], *rej[i])
            else: d = None
            if d:
                d["before"] = [dict(kind=k.kind, program=k.prog, envs=[e for _, e in es], h=k.h, need=sorted(k.need)) for k, es in items[:-1]] if len(items) < 80 else len(items) - 1
                d["eids"] = [e for _, e in items[-1][1]]
                return True, d
            if back >= j: break
    return False, None

def run(pid, reg):
    t0 = time.time()
    ctx = Ctx(pid)
    spec = reg.CHECKS[pid]
    spec["gen"](ctx)
    states = trans = 0
    samples = []
    # 1. the specification itself
    mrep = []
    def model(m):
        return core.tlc(m["module"], m.get("cfg", m["module"].replace(".tla", ".cfg")), env=m.get("env"),
                           timeout=m.get("timeout", 500), extra=m.get("extra", ()), workers=m.get("workers", core.NPROC))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(model, ctx.models))
    for m, (rc, out) in zip(ctx.models, outs):
        if "Model checking completed. No error has been found" not in out:
            raise ToolError("model %s failed:\n%s" % (m["module"], out[-3000:]))
        s = core.stats(out)
        trans += s[0]; states += s[1]
        mrep.append(dict(module=m["module"], env=m.get("env", {}), transitions=s[0], distinct_states=s[1]))
        if m.get("use"): m["use"](ctx, out)
    # 2. the code
    res = core.run_cases(ctx.cases, ctx.cfgs)
    bad = []
    for n, err in res.skipped.items():
        if spec.get("need_all_configs"):
            d = dict(config=n, env={}, kind="build", program=[], note=err, rejected_event=None, event_index=0)
            bad.append(d)
        else:
            ctx.notes.append("configuration %s does not build and was left out" % n)
    fake = corrupt(ctx, res.traces)
    rej, s = core.check_traces(res.traces + fake)
    trans += s[0]; states += s[1]
    for f in fake:
        if f["id"] not in rej: raise ToolError("a falsified trace was accepted: %s" % f["log"][:500])
        del rej[f["id"]]
    # 3. verdict
    seen = set()
    for k in res.crashes:
        sig = (k["what"], k["case"].id)
        if sig in seen or len(seen) > 8: continue
        seen.add(sig)
        ok, d = confirm(ctx, k["case"], k["env"], k["cfg"])
        if not ok and k["what"] not in ("hang", "exit -9"): ok, d = after(res, k["case"], k["case"].envs.index(k["env"]), k["cfg"])
        if ok: bad.append(d)
        else: ctx.notes.append("a crash (%s) did not repeat" % k["what"])
    byid = {t["id"]: t for t in res.traces}
    groups = {}
    for tid, (pos, st) in sorted(rej.items()):
        t = byid[tid]; lines = t["log"].split("\n")
        ev = json.loads(lines[pos - 1]) if pos <= len(lines) else {}
        g = (t["h"]["k"], ev.get("op"), ev.get("e"), ev.get("msg", ""))
        groups.setdefault(g, []).append((len(lines), t, pos, st))
    nrej = len(rej)
    for g, l in groups.items():
        l.sort(key=lambda x: x[0])
        for _, t, pos, st in l[:(3 if len(groups) < 12 else 1)]:
            cid, eid, cfg = t["src"][0]
            case = res.byid[cid]
            ok, d = confirm(ctx, case, case.envs[eid], cfg)
            if not ok: ok, d = after(res, case, eid, cfg)
            if ok: bad.append(d)
            else: ctx.notes.append("a rejection did not repeat: %s" % (g,))
    for p in ctx.post:
        bad += p(ctx, res)
    known = known_for(pid)
    # every rejected trace must be explained by a known finding, not only the confirmed ones
    unlisted, hit = [], set()
    for d in bad:
        k = next((k for k in known if matches(k, d)), None)
        if k: hit.add(k["id"])
        else: unlisted.append(d)
    if not unlisted and known:
        for tid, (pos, st) in rej.items():
            t = byid[tid]; cid, eid, cfg = t["src"][0]; case = res.byid[cid]
            d = describe(case, case.envs[eid], cfg, t["log"], pos, st)
            if not any(matches(k, d) for k in known):
                ok, d = confirm(ctx, case, case.envs[eid], cfg)
                if ok:
                    unlisted.append(d); break
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    if unlisted:
        rc = 1
        os.makedirs(REPLAY, exist_ok=True)
        for i, d in enumerate(unlisted[:6]):
            path = os.path.join(REPLAY, "%s-%d.json" % (pid, i))
            d["property"] = pid
            json.dump(d, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            e = d.get("rejected_event")
            print("  config=%s env=%s %s" % (d["config"], d["env"], d.get("crash") or (json.dumps(e)[:400] if e else d.get("note", ""))))
    # 4. evidence
    rnd = random.Random(SEED)
    for t in rnd.sample(res.traces, min(4, len(res.traces))):
        cid, eid, cfg = t["src"][0]
        samples.append(dict(program=res.byid[cid].prog[:30], env=res.byid[cid].envs[eid], config=cfg, last=t["log"].split("\n")[-1][:300]))
    ops = {}
    for t in res.traces:
        for o in re.findall(r'^\{"op":"(\w+)"', t["log"], re.M): ops[o] = ops.get(o, 0) + 1
    nontriv = sum(1 for t in res.traces if t["log"].count("\n") >= 2)
    cov = dict(evaluations=res.runs, distinct_nontrivial=nontriv, rule=ctx.rule or "a run is one program in one environment and one build "
               "configuration; runs with identical observations are folded into one trace; a trace is non-trivial if it has at least three calls",
               samples=samples, states=states, transitions=trans, traces_validated_against_impl=len(res.traces),
               programs=len(ctx.cases), configurations=res.cfgs, models=mrep, rejected=nrej, events_by_operation=ops,
               falsified_traces_rejected=len(fake), notes=ctx.notes)
    if ctx.exhaustive: cov["exhaustive"] = True
    os.makedirs(EVDIR, exist_ok=True)
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(unlisted))
    json.dump(ev, open(os.path.join(EVDIR, pid + ".json"), "w"), indent=1)
    print("%s: %d programs, %d runs, %d traces, %d states, %d rejected, %.1fs" % (pid, len(ctx.cases), res.runs, len(res.traces), states, nrej, time.time() - t0))
    return rc

def main(argv):
    from . import registry as reg
    if argv[0] == "--replay":
        d = json.load(open(argv[1]))
        c = core.Case(d["kind"], d["program"], [d["env"]])
        if isinstance(d.get("before"), list):       # programs that have to go before it in the same process
            cs = [core.Case(b["kind"], b["program"], b["envs"], b["h"], b["need"]) for b in d["before"]] + [c]; c.envs = d["eids"]
            for i, k in enumerate(cs): k.id = "c%d" % i
            s = core.Shard(core.B.build(d["config"]), [(k, list(enumerate(k.envs))) for k in cs], 300); s.run()
            log = s.logs.get((c.id, len(c.envs) - 1), ""); print(log); print(s.crashes)
            print(core.check_traces([dict(id=i, h=h, log=l) for i, (h, l) in enumerate(core.executions(c, c.envs[-1], d["config"], log))])[0])
            return 0
        res = core.run_cases([c], [d["config"]])
        for t in res.traces: print(t["log"]); print(core.check_traces([t])[0])
        for k in res.crashes: print(k["what"], k["text"])
        return 0
    try:
        return run(argv[0], reg)
    except ToolError as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
