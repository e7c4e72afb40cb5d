#!/usr/bin/env python3
"""Development aid: does the native replay of every harness compile, and does a
random search of all of them stay quiet on the good tree?  replaycheck.py [-a] [PROP]"""
import os, sys, tempfile, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vf"))
args = sys.argv[1:]; every = '-a' in args; args = [a for a in args if a != '-a']; sys.argv = sys.argv[:1]
import run, registry
seen = {}; run.SEARCH_SECS = 3 if every else 20
for p in registry.PROPS:
    if args and p not in args: continue
    if registry.PROPS[p].get("prepare"): registry.PROPS[p]["prepare"](run.REPO, run.HERE)
    for o in registry.PROPS[p]["obs"]:
        seen.setdefault((p, o.unit, o.harness) + ((o.id,) if every else ()), o)
def one(k):
    o = seen[k]; w = tempfile.mkdtemp(prefix="vf_")
    try:
        run.annotate(o, w)
        exe, e = run.native(o, w, [])
        rc = out = None
        if exe:
            open(w + "/in.txt", "w").close(); rc, out = run.search_native(exe, w + "/in.txt", lambda rc, out: rc not in (0, 77, 78, 126, 127, "timeout", -14) and "pc 0x000000000000" not in out)
        return k, exe is not None, e, rc, (out or "")[:200]
    finally: shutil.rmtree(w, ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for k, ok, e, rc, out in ex.map(one, seen):
        if not ok or rc not in (0, 77, 78): print(k, "built" if ok else "BUILD FAILS", rc, e[:300] if not ok else out)
