#!/usr/bin/env python3
"""Planted changes: confirm them, and run the checks against them.  Everything
happens in a scratch copy of /repo that a private mount namespace shows at /repo.
  seed.py test ID...            builds, passes the stable tests, demo fails; demo passes without
  seed.py check ID [PROP...]    which checks report it (default: the property it breaks)
  seed.py checkall [-j N]       every planted change against its own property
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
def ns(copy, cmd, env=None, timeout=3000):
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")
def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo/.", d])
    subprocess.call(["git", "-C", d, "checkout", "-q", "--", "."])
    return d
def test(i):
    d = copy(); s = os.path.join(SEED, i); ok = True
    dm = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    try:
        for f in os.listdir(s):
            if f not in ("meta.json", "patch.diff"): shutil.copy(os.path.join(s, f), dm)
        rc, o = ns(d, "bash /opt/vp/build.sh && bash %s/demo.sh" % dm)
        print(i, "demo on unchanged tree:", rc, "" if rc == 0 else o[-600:]); ok &= rc == 0
        subprocess.check_call(["git", "-C", d, "apply", os.path.join(s, "patch.diff")])
        rc, o = ns(d, "bash /opt/vp/test.sh /tmp/%s.json" % os.path.basename(d))
        r = json.load(open("/tmp/%s.json" % os.path.basename(d))); os.unlink("/tmp/%s.json" % os.path.basename(d))
        miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(r["passed"]))
        print(i, "stable tests not passing:", len(miss), miss[:4], o[-300:] if miss else ""); ok &= not miss
        rc, o = ns(d, "bash %s/demo.sh" % dm)
        print(i, "demo on changed tree:", rc, o[-300:]); ok &= rc != 0
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(dm, ignore_errors=True)
    print(i, "KEEP" if ok else "REJECT"); return ok
def check(i, props=None):
    s = os.path.join(SEED, i)
    meta = json.load(open(os.path.join(s, "meta.json")))
    d = copy(); out = tempfile.mkdtemp(prefix="out-", dir="/tmp")
    try:
        subprocess.check_call(["git", "-C", d, "apply", os.path.join(s, "patch.diff")])
        for p in props or [meta["property"]]:
            rc, o = ns(d, "cd %s && python3 run.py %s" % (ROOT, p), dict(VP_OUT=out))
            print(i, p, "CAUGHT" if rc == 1 and "VIOLATION property=%s " % p in o else "MISSED" if rc == 0 else "BROKEN", rc)
            print("   ", o.strip().replace("\n", "\n    ")[-700:], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(out, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "test":
        for i in a[1:]: test(i)
    elif a[0] == "check": check(a[1], a[2:])
    elif a[0] == "checkall":
        for i in sorted(os.listdir(SEED)): check(i)
