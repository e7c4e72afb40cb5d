#!/usr/bin/env python3
"""Driver: decides one property by discharging its contract obligations.

  run.py C01            (tier from VERIF_TIER, default quick)

For every obligation group (class Ob) of the property:
  1. goto-cc compiles the unit, which #includes the current source files of
     $VF_REPO (default /repo) verbatim;
  2. goto-instrument --dfcc enforces the contract of one function and replaces
     the listed callees by their contracts;
  3. cbmc discharges every generated obligation.
A failed obligation is a violation; its counterexample is replayed natively
against the same real code.
"""
import concurrent.futures as cf
import importlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VF_REPO", "/repo")
JOBS = int(os.environ.get("VF_JOBS", "8"))
KEEP = os.environ.get("VF_KEEP")
BASE_CHECKS = ["--no-standard-checks", "--bounds-check", "--pointer-check",
               "--div-by-zero-check", "--unwinding-assertions",
               "--no-malloc-may-fail", "--slice-formula"]
# vacuity canary: an assertion at the end of every harness that must be
# reachable (thorough tier; costs a second solver call)
CANARY_ON = os.environ.get("VERIF_TIER") == "thorough"


STOP = threading.Event()     # a violation has been replayed: the rest is skipped


class Ob:
    """One obligation group = one harness + one enforced contract."""
    def __init__(self, unit, harness, fn=None, replace=(), defs=(), unwind=10,
                 unwindset=(), solver="cadical", flags=(), timeout=400,
                 bounded=None, tier="quick", covers=None, annotate=(),
                 extra_src=(), fallback=None, name=None, canary=True,
                 loop_contracts=False, optional_replace=(), depth=None,
                 external=(), weight=1):
        self.unit, self.harness, self.fn = unit, harness, fn
        self.replace, self.defs = list(replace), list(defs)
        self.unwind, self.unwindset = unwind, list(unwindset)
        self.solver, self.flags, self.timeout = solver, list(flags), timeout
        self.bounded, self.tier, self.covers = bounded, tier, covers
        self.annotate, self.extra_src = list(annotate), list(extra_src)
        self.fallback = fallback
        self.canary = canary
        self.loop_contracts = loop_contracts
        self.optional_replace = list(optional_replace)
        self.external = list(external)
        self.weight = weight
        self.id = name or (unit + "." + harness + ("" if not defs else "[" + ",".join(defs) + "]"))


def sh(cmd, timeout, cwd=None, mem_gb=14):
    def lim():
        b = mem_gb << 30
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
        os.setsid()
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, preexec_fn=lim, stdin=subprocess.DEVNULL)
    try:
        while True:
            try:
                o, e = p.communicate(timeout=min(2, max(0.1, timeout - (time.time() - t))))
                break
            except subprocess.TimeoutExpired:
                if STOP.is_set() or time.time() - t >= timeout:
                    raise
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return "timeout", b"", b"", time.time() - t
    return rc, o, e, time.time() - t


def includes(work):
    return ["-I" + work, "-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "gen"),
            "-I" + REPO, "-I" + os.path.join(REPO, "libyasm"), "-I" + os.path.join(HERE, "units"),
            "-I" + os.path.join(REPO, "modules/objfmts/elf")]


class Result:
    def __init__(self, ob):
        self.ob = ob
        self.status = "error"      # ok | violation | undecided | error
        self.detail = ""
        self.total = self.ok = 0
        self.failed = []           # [(property, description, location)]
        self.solver_s = self.wall_s = 0.0
        self.replay = None
        self.replayed = False
        self.fell_back = None


def annotate(ob, work):
    """Mechanical insertion of loop contracts: (file, regex, insertion)."""
    done = {}
    for path, rx, ins in ob.annotate:
        src = done.get(path)
        if src is None:
            src = open(os.path.join(REPO, path)).read()
        m = list(re.finditer(rx, src, re.S))
        if len(m) != 1:
            return "annotation point not found (%d matches): %s" % (len(m), rx)
        p = m[0].end()
        src = src[:p] + ins + src[p:]
        done[path] = src
    for path, src in done.items():
        d = os.path.join(work, path)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        open(d, "w").write(src)
    return None


def cbmc_json(gb, ob, extra, timeout):
    cmd = ["cbmc", gb, "--json-ui"] + BASE_CHECKS + ob.flags + ["--unwind", str(ob.unwind)]
    if ob.unwindset:
        cmd += ["--unwindset", ",".join(ob.unwindset)]
    if ob.solver in ("cadical", "minisat2"):
        cmd += ["--sat-solver", ob.solver]
    elif ob.solver == "kissat":
        cmd += ["--external-sat-solver", "kissat"]
    elif ob.solver:
        cmd += ["--" + ob.solver]
    if "--object-bits" not in ob.flags:
        cmd += ["--object-bits", "10"]
    if "--trace" in extra:             # slicing would drop harness inputs
        cmd.remove("--slice-formula")
    rc, o, e, t = sh(cmd + extra, timeout)
    if rc != "timeout" and b"too many addressed objects" in o:
        cmd[cmd.index("--object-bits") + 1] = "14"
        rc, o, e, t = sh(cmd + extra, timeout)
    if rc == "timeout":
        return None, "timeout after %ds" % timeout, t, cmd
    try:
        js = json.loads(o)
    except ValueError:
        return None, "cbmc gave no result (rc=%s): %s" % (rc, (o[-300:] + e[-300:]).decode("latin1")), t, cmd
    return js, None, t, cmd


def build(ob, work, log):
    inc = includes(work)
    gb, gb2 = os.path.join(work, "a.gb"), os.path.join(work, "b.gb")
    unit = os.path.join(HERE, "units", ob.unit + ".c")
    cmd = ["goto-cc"] + inc + ["-D" + d for d in ob.defs] + (["-DVF_CANARY"] if CANARY_ON and ob.canary else []) + ["--function", ob.harness, unit, "-o", gb]
    rc, o, e, t = sh(cmd, 120)
    log.append(" ".join(cmd))
    if rc != 0:
        err = "\n".join(l for l in (o + e).decode("latin1").splitlines() if "rror" in l)[:600]
        return None, "goto-cc failed: " + (err or (o+e)[-400:].decode("latin1"))
    if not ob.fn and not ob.replace and not ob.loop_contracts:
        return gb, None
    rep = list(ob.replace)
    if ob.optional_replace:
        rc, o, e, t = sh(["goto-instrument", "--show-symbol-table", gb], 60)
        txt = o.decode("latin1")
        for f in ob.optional_replace:
            if re.search(r"Symbol\.*: contract::%s\b" % re.escape(f), txt):
                rep.append(f)
    cmd = ["goto-instrument", "--dfcc", ob.harness]
    if ob.fn:
        cmd += ["--enforce-contract", ob.fn]
    for r in rep:
        cmd += ["--replace-call-with-contract", r]
    if ob.loop_contracts:
        cmd += ["--apply-loop-contracts", "--disable-loop-contracts-side-effect-check"]
    cmd += [gb, gb2]
    rc, o, e, t = sh(cmd, 240)
    log.append(" ".join(cmd))
    if rc != 0:
        return None, "goto-instrument failed: " + (o[-500:] + e[-700:]).decode("latin1")
    return gb2, None


def run_ob(ob, outdir):
    r = Result(ob)
    if STOP.is_set():
        r.status, r.detail = "skipped", "skipped after a replayed violation"
        return r
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf_")
    try:
        _run_ob(ob, r, work, outdir)
    except Exception as ex:           # machinery error, never a violation
        r.status, r.detail = "error", "exception %r" % ex
    finally:
        if KEEP:
            print("kept", ob.id, work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    r.wall_s = time.time() - t0
    if STOP.is_set() and r.status != "ok" and not r.replayed:
        r.status, r.detail = "skipped", "skipped after a replayed violation"
        return r
    if r.status == "violation" and r.replayed and not sys.argv[2:] and not known_match(r):
        STOP.set()
    if r.status != "ok" and not r.replayed and ob.fallback:
        print("fallback:", ob.id, r.status, r.detail[-700:], [x[0] for x in r.failed[:5]], flush=True)
        f = run_ob(ob.fallback, outdir)
        f.fell_back = "%s: %s" % (ob.id, r.detail or ("failed " + ", ".join(p for p, _, _ in r.failed[:4])))
        f.wall_s += r.wall_s
        return f
    return r


def _run_ob(ob, r, work, outdir):
    log = []
    err = annotate(ob, work)
    if err:
        r.detail = err
        return
    gb, err = build(ob, work, log)
    if err:
        r.detail = err
        return
    js, err, t, cmd = cbmc_json(gb, ob, [], ob.timeout)
    log.append(" ".join(cmd))
    r.solver_s = t
    if err:
        r.status, r.detail = "undecided", err
        search_undecided(ob, r, work, outdir, log)
        return
    res = None
    msgs = []
    for el in js:
        if "result" in el:
            res = el["result"]
        if el.get("messageType") == "ERROR":
            msgs.append(el.get("messageText", ""))
    if res is None:
        r.detail = "no result: " + " | ".join(msgs)[:400]
        return
    unwind_fail, canary = [], None
    for p in res:
        d, st = p.get("description", ""), p["status"]
        loc = p.get("sourceLocation", {})
        where = "%s:%s %s" % (loc.get("file", "?").replace(REPO + "/", ""), loc.get("line", "?"), loc.get("function", ""))
        if d == "vf_canary":
            canary = (st == "FAILURE") or canary is True
            continue
        if ".unwind." in p["property"] or "recursion" in p["property"]:
            if st == "FAILURE":
                unwind_fail.append((p["property"], d, where))
            continue
        r.total += 1
        if st == "SUCCESS":
            r.ok += 1
        elif st == "FAILURE":
            r.failed.append((p["property"], d, where))
        else:
            r.detail = "status %s for %s" % (st, p["property"])
            r.status = "undecided"
    if r.failed or unwind_fail:
        prio = lambda f: (0 if "postcondition" in f[0] else 1 if "lemma" in f[1] else 2)
        r.failed.sort(key=prio)
        cands = (r.failed + unwind_fail)[:4]
        for c in cands:
            ok = replay(ob, r, gb, c, work, outdir, log)
            if ok:
                r.replayed = True
                if c not in r.failed:
                    r.failed.insert(0, c)
                break
        if r.failed:
            r.status = "violation"
            if not r.replay:
                r.replay = write_replay(ob, r, outdir, r.failed[0], None, "no counterexample values", log)
        else:
            r.status = "undecided"
            r.detail = "loop bound exceeded: %s %s" % (unwind_fail[0][0], unwind_fail[0][2])
            search_undecided(ob, r, work, outdir, log)
        return
    if r.status == "undecided":
        return
    if CANARY_ON and ob.canary and not canary:
        r.status, r.detail = "error", "vacuous: end of harness unreachable"
        return
    if r.total == 0:
        r.detail = "no obligations generated"
        return
    r.status = "ok"


def native(ob, work, log):
    exe = os.path.join(work, "replay_exe")
    cmd = ["clang", "-w", "-g", "-O1", "-std=gnu11", "-fno-strict-aliasing", "-DVF_REPLAY", "-DVF_HARNESS=" + ob.harness,
           "-fsanitize=address", "-fno-sanitize-recover=all", "-no-pie", "-fno-pie"] + includes(work) + \
          ["-D" + d for d in ob.defs] + [os.path.join(HERE, "units", ob.unit + ".c")] + \
          [os.path.join(REPO, s) for s in ob.extra_src] + \
          [os.path.join(HERE, "lib", "replay_main.c"), "-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-lm"]
    log.append(" ".join(cmd))
    rc, o, e, t = sh(cmd, 200, mem_gb=30)
    return (exe, "") if rc == 0 else (None, (o + e).decode("latin1")[-800:])


def run_native(exe, infile, search=None, secs=20):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", LC_ALL="C")
    try:
        p = subprocess.run([exe, infile] if search is None else [exe, '-s', str(search), str(secs), infile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=60, env=env, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("latin1")[:3000]
    except subprocess.TimeoutExpired:
        return "timeout", "native run did not terminate in 60 s"


SEARCH_SECS = 20


def search_native(exe, infile, real):
    """Random search; what it finds counts only when a fresh process fails on
    the same inputs (statics may carry over from one try to the next)."""
    seed, end, hit = int(os.environ.get("VERIF_SEED", "1")), time.time() + SEARCH_SECS, infile + ".hit"
    while True:
        left = int(end - time.time())
        if left < 1:
            return 77, ""
        if os.path.exists(hit):
            os.unlink(hit)
        rc, out = run_native(exe, infile, seed, left)
        if not real(rc, out):
            return rc, out
        if os.path.exists(hit):
            rc, out2 = run_native(exe, hit)
            if real(rc, out2):
                return rc, out2 + "\n" + "".join(l for l in out.splitlines(True) if l.startswith("INPUTS"))
        seed += 7919


def replay(ob, r, gb, fail, work, outdir, log):
    js, err, t, cmd = cbmc_json(gb, ob, ["--trace", "--property", fail[0]], ob.timeout)
    if err:
        vals, js = [], []
    else:
        vals = None
    for el in js:
        for p in el.get("result", []):
            if "trace" in p:
                vals = []
                for s in p["trace"]:
                    if s.get("stepType") == "assignment" and s.get("lhs") == "vf_log" \
                            and s.get("sourceLocation", {}).get("function") == "vf_nd":
                        b = s["value"].get("binary")
                        vals.append(int(b, 2) if b else 0)
    if vals is None:
        vals = []
    exe, e = native(ob, work, log)
    if not exe:
        r.replay = write_replay(ob, r, outdir, fail, vals, "native build failed:\n" + e, log)
        return False
    inf = os.path.join(work, "in.txt")
    open(inf, "w").write("\n".join(map(str, vals)) + "\n")
    rc, out = run_native(exe, inf)
    real = lambda rc, out: rc not in (0, 77, 78, 126, 127, "timeout", -14) and "pc 0x000000000000" not in out
    confirmed = real(rc, out)
    if not confirmed:
        # the values of uninterpreted symbols are not inputs: look for an
        # input near the counterexample that fails on the real code
        rc2, out2 = search_native(exe, inf, real)
        if real(rc2, out2):
            confirmed, rc, out = True, rc2, "found by varying the verifier's counterexample\n" + out2
    r.replay = write_replay(ob, r, outdir, fail, vals, "native replay rc=%s%s\n%s" % (
        rc, " (CONFIRMED on the real code)" if confirmed else "", out), log)
    return confirmed


def search_undecided(ob, r, work, outdir, log):
    """The verifier gave no answer: look for a concrete input that breaks the
    contract on the real code (reported only when the run really fails)."""
    if ob.fallback:
        return
    exe, e = native(ob, work, log)
    if not exe:
        return
    inf = os.path.join(work, "in0.txt")
    open(inf, "w").close()
    rc, out = search_native(exe, inf, lambda rc, out: rc == 1 and "CHECK-FAILED" in out)
    if rc == 1 and "CHECK-FAILED" in out:
        r.failed = [(ob.id + ".undecided", "concrete input breaks the contract: " + out.split("\n")[0], "")]
        r.replayed, r.status = True, "violation"
        r.replay = write_replay(ob, r, outdir, r.failed[0], None, out, log)


def write_replay(ob, r, outdir, fail, vals, text, log):
    os.makedirs(outdir, exist_ok=True)
    fn = os.path.join(outdir, re.sub(r"[^A-Za-z0-9_.=-]", "_", ob.id) + ".replay.txt")
    with open(fn, "w") as f:
        f.write("obligation group: %s\nenforced contract: %s\n" % (ob.id, ob.fn))
        f.write("failed obligation: %s\n  %s\n  at %s\n" % fail)
        f.write("all failed: %s\n" % ", ".join(p for p, _, _ in r.failed))
        f.write("harness inputs (vf_nd values in order): %s\n" % (vals,))
        f.write("\n--- replay against the real code ---\n%s\n" % text)
        f.write("\n--- commands ---\n%s\n" % "\n".join(log))
    return fn


def known_findings():
    out = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"finding: property=(\S+) ob=(\S+) obligation=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def known_match(r):
    ks = [k[2] for k in known_findings() if k[1] == r.ob.id]
    return bool(ks) and all(f[0] in ks for f in r.failed)


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[2] if len(sys.argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import registry
    P = registry.PROPS[prop]
    obs = [o for o in P["obs"] if tier == "thorough" or o.tier == "quick"]
    if only:
        obs = [o for o in P["obs"] if re.search(only, o.id)]
    if P.get("prepare"):
        P["prepare"](REPO, HERE)
    outdir = os.path.join(VERIF, "evidence", "replay", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    obs.sort(key=lambda o: -o.weight)
    results = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(run_ob, o, outdir) for o in obs]
        for f in cf.as_completed(futs):
            r = f.result()
            results.append(r)
            if r.status != "ok" or only or os.environ.get("VF_VERBOSE"):
                print("%-9s %6.1fs %4d/%d %s %s" % (r.status, r.wall_s, r.ok, r.total, r.ob.id, r.detail[:600]), flush=True)
                if r.status == "violation" and (only or os.environ.get("VF_VERBOSE")):
                    for p, d, w in r.failed[:6]:
                        print("     ", p, "|", d[:90], "|", w, flush=True)
    results.sort(key=lambda r: r.ob.id)
    kf = [k for k in known_findings() if k[0] == prop]
    viol, errs, found = [], [], []
    for r in results:
        if r.status == "violation":
            ks = [k for k in kf if k[1] == r.ob.id]
            un = [f for f in r.failed if not any(f[0] == k[2] for k in ks)]
            if un:
                viol.append(r)
            else:
                found += [k for k in ks]
        elif r.status not in ("ok", "skipped"):
            errs.append(r)
    for k in sorted(set(found)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    for r in viol:
        tail = "" if r.replayed else " no-failing-input-found"
        print("failed obligation: %s | %s | %s" % r.failed[0])
        print("VIOLATION property=%s replay=%s%s" % (prop, r.replay, tail))
    if not only:
        evidence(prop, P, tier, seed, results, viol, errs, time.time() - t0)
    n = sum(r.total for r in results)
    print("%s: %d obligation groups, %d/%d obligations discharged, %d violations, %d undecided, %.0fs" % (
        prop, len(results), sum(r.ok for r in results), n, len(viol), len(errs), time.time() - t0))
    sys.exit(1 if viol else 2 if errs else 0)


def evidence(prop, P, tier, seed, results, viol, errs, wall):
    proof = [r for r in results if not r.ob.bounded]
    bnd = [r for r in results if r.ob.bounded]
    fns = {}
    for r in results:
        k = r.ob.fn or ("lemma:" + r.ob.harness)
        e = fns.setdefault(k, {"groups": 0, "obligations": 0, "discharged": 0, "cbmc_s": 0.0, "mode": set()})
        e["groups"] += 1
        e["obligations"] += r.total
        e["discharged"] += r.ok
        e["cbmc_s"] = round(e["cbmc_s"] + r.solver_s, 1)
        e["mode"].add("bounded: " + r.ob.bounded if r.ob.bounded else "proved (no bound)")
    for e in fns.values():
        e["mode"] = sorted(e["mode"])
    assumed = sorted({x for r in results for x in r.ob.replace if x not in fns})
    backends = {}
    for r in results:
        backends[r.ob.solver] = backends.get(r.ob.solver, 0) + r.ok
    cov = {
        "obligations": sum(r.total for r in proof),
        "discharged": sum(r.ok for r in proof),
        "checker_cmd": "goto-cc | goto-instrument --dfcc H --enforce-contract F [--replace-call-with-contract G] | cbmc (6.11.0) --unwinding-assertions",
        "trusted_base": ["cbmc/goto-cc/goto-instrument 6.11.0", "SAT/SMT back end"] + P.get("trusted", []),
        "backends": backends,
        "functions_under_contract": fns,
        "obligation_groups": len(results),
        "bounded_obligations": sum(r.total for r in bnd),
        "bounded_discharged": sum(r.ok for r in bnd),
        "assumed_callee_contracts": assumed,
        "fallbacks_used": [r.fell_back for r in results if r.fell_back],
        "undecided": [r.ob.id + ": " + r.detail[:160] for r in errs],
        "solver_s": round(sum(r.solver_s for r in results), 1),
        "samples": [{"group": r.ob.id, "enforced": r.ob.fn, "obligations": r.total, "cbmc_s": round(r.solver_s, 2)} for r in results[:12]],
        "vacuity": "every harness ends in an assertion that must be reported reachable-and-failing (vf_canary)",
    }
    if P.get("level", "proof") == "other":
        cov["explanation"] = P["explanation"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "proof"), "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
