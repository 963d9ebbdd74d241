#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property of /repo's current tree.

Deciding step: every obligation of every verification unit of the property (contracts/*.py) is generated
from the code of /repo compiled now, and discharged.  Exit 0: held. Exit 1 + VIOLATION line otherwise."""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.pool
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
from vf import build                      # noqa: E402
from vf.unit import run_unit              # noqa: E402
import props as registry                  # noqa: E402

NJ = min(8, os.cpu_count() or 4)
MODS = {}
UNITS = []


def _build(key):
    try:
        return key, build.module(*key[1:5]), None
    except Exception as x:      # extraction failed: the units of this module are undecided
        return key, None, f"{type(x).__name__}: {str(x)[-1500:]}"


def _work(job):
    i, kw = job
    u = UNITS[i]
    m, err = MODS[u.mod]
    if m is None:
        return i, dict(unit=u.name, fun=u.fun, error="extraction: " + err, obligations=[], reached={}, wall=0, queries=0,
                       qtime=0, inlined=[], assumed=[], loops=0, summaries=0)
    kw = dict(kw)
    left = kw.pop("deadline", 1e18) - time.time()
    if left < 5:
        return i, dict(unit=u.name, fun=u.fun, error="time: the check's time ran out before this unit", obligations=[], reached={}, wall=0, queries=0,
                       qtime=0, inlined=[], assumed=[], loops=0, summaries=0)
    kw["budget"] = min(kw["budget"], left)
    return i, run_unit(u, m, **kw)


def run_jobs(jobs, n=None):
    res = {}
    if not jobs:
        return res
    with mp.get_context("fork").Pool(min(n or NJ, len(jobs)), maxtasksperchild=1) as p:
        for i, r in p.imap_unordered(_work, jobs):
            res[i] = r
    return res


def bad(r):
    return [o for o in r["obligations"] if o["status"] != "proved"]


def definite(o):
    """the solver has a counterexample and nothing on the path was over-approximated"""
    return o["status"] == "sat" and not o["taint"]


# ------------------------------------------------------------------ native replay / bounded stand-in
def native_build(name, srcs, defs, outdir, debug=True):
    out = os.path.join(outdir, name + ("" if debug else ".nd"))
    cmd = ["clang++-18", "-std=gnu++20", "-O1", "-g1", "-w", "-fsanitize=address,undefined",
           "-fno-sanitize=alignment,nonnull-attribute,returns-nonnull-attribute,pointer-overflow", "-fno-delete-null-pointer-checks",
           "-fno-sanitize-recover=undefined", f"-I{build.REPO}", "-I" + os.path.join(HERE, "native"), *defs,
           os.path.join(HERE, "native", name + ".cc"), *[os.path.join(build.REPO, s) for s in srcs],
           "-o", out, "-lfmt", "-lboost_container"]
    if not debug:
        cmd.insert(1, "-DNDEBUG")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (out, None) if r.returncode == 0 else (None, r.stdout[-3000:])


def native_search(prop, natives, hints, secs, seed, extra=()):
    """random histories on the real code against the independent model; returns (failing run or None, notes)"""
    d = tempfile.mkdtemp(prefix="vf_nat_")
    notes = []
    try:
        jobs = [(nm, srcs, defs, dbg) for nm, srcs, defs, dbgs in natives for dbg in dbgs]
        with mp.pool.ThreadPool(NJ) as tp:
            bins = tp.map(lambda j: (j, native_build(j[0], j[1], j[2], d, j[3])), jobs)
        good = []
        for j, (b, err) in bins:
            if b:
                good.append((j, b))
            else:
                notes.append(f"native/{j[0]}.cc does not build against the current tree: {err[-600:]}")
        if not good:
            return None, notes
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=0", UBSAN_OPTIONS="print_stacktrace=0")
        per = max(1, NJ // len(good))
        runs = []
        for j, b in good:
            for k in range(per):
                h = [x for v in hints for x in ("--hint", str(v))] if k % 2 == 0 else []
                cmd = [b, "--prop", prop, "--seed", str(seed * 1000 + k + 1), "--secs", str(secs), *h, *extra]
                runs.append((j, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, errors="replace", cwd=d)))
        found = None
        its = 0
        end = time.time() + secs + 60
        pend = list(runs)
        outs = {}

        def collect(r):
            try:
                return r, r[2].communicate(timeout=max(1, end - time.time()))[0]
            except subprocess.TimeoutExpired:
                r[2].kill()
                return r, "HANG\n" + (r[2].communicate()[0] or "")
        with mp.pool.ThreadPool(len(pend)) as tp:
            for r, out in tp.imap_unordered(collect, pend):
                if found:
                    continue
                if r[2].returncode == 0 and "OK iterations=" in out:
                    its += int(out.split("OK iterations=")[1].split()[0])
                elif "FAIL" in out or out.startswith("HANG") or r[2].returncode not in (0,):
                    found = dict(harness=f"native/{r[0][0]}.cc", ndebug=not r[0][3], sources=r[0][1], args=r[1][1:], output=out[-6000:],
                                 exit=r[2].returncode)
                    for q in runs:
                        if q[2].poll() is None:
                            q[2].kill()
        notes.append(f"native runs: {len(runs)}, histories: {its}")
        return found, notes
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hints_of(res):
    hints = []
    for r in res.values():
        for o in bad(r):
            for v in (o.get("model") or {}).values():
                if isinstance(v, int) and v not in hints and len(hints) < 24:
                    hints.append(v)
    return hints


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="", help="development: units whose name contains this")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = registry.PROPS[prop]
    global UNITS
    natives, assumptions = [], []
    BOUNDED = []
    for cm in spec["contracts"]:
        C = importlib.import_module("contracts." + cm)
        UNITS += [u for u in C.units(thorough) if prop in u.props and a.only in u.name]
        natives += [n for n in C.NATIVE if n not in natives]
        assumptions += C.ASSUMPTIONS
        BOUNDED += getattr(C, "BOUNDED", [])
    keys = list(dict.fromkeys(u.mod for u in UNITS))
    with mp.get_context("fork").Pool(min(NJ, len(keys))) as p:
        for k, m, err in p.imap_unordered(_build_ipc, keys):
            MODS[k] = (m, err)
    budget = spec.get("budget", 400) * (2 if thorough else 1)
    full_ms = 60000 if thorough else 30000
    order = sorted(range(len(UNITS)), key=lambda i: -UNITS[i].weight)
    kw = dict(want=prop, budget=budget, full_ms=full_ms, deadline=t0 + (2400 if thorough else 560))
    res = run_jobs([(i, kw) for i in order])
    # the canary: a deliberately false postcondition added to the first unit must fail, or the checker is broken
    again = [i for i in order if (bad(res[i]) or res[i]["error"]) and UNITS[i].callee_contracts and MODS[UNITS[i].mod][0]
             and time.time() - t0 < 300]
    modular = {i: True for i in order}
    early, notes = None, []
    if any(bad(res[i]) or res[i]["error"] for i in order):
        early, notes = native_search(prop, natives, hints_of(res), 12, seed)
    if again and not early:
        left = max(60, min(300, 480 - (time.time() - t0)))
        r2 = run_jobs([(i, dict(kw, contracts=False, budget=left, deadline=1e18)) for i in again])
        for i in again:
            if not bad(r2[i]) and not r2[i]["error"] and r2[i]["obligations"]:
                res[i], modular[i] = r2[i], False
            elif res[i]["error"] and not r2[i]["error"]:
                res[i], modular[i] = r2[i], False
    wall_proof = time.time() - t0
    nobl = ndis = 0
    backends, undecided, viol, functions, unproved_units = {}, [], [], [], []
    trusted = set()
    for i in range(len(UNITS)):
        r, u = res[i], UNITS[i]
        b = bad(r)
        nobl += len(r["obligations"])
        ndis += len(r["obligations"]) - len(b)
        trusted.update(r["assumed"])
        for o in r["obligations"]:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        miss = [x for x in u.must_reach if not r["reached"].get(x)] if not r["error"] and not b else []
        if r["error"] or miss or (not r["obligations"]):
            undecided.append((u, r["error"] or (f"exits not reached: {miss}" if miss else "no obligation generated")))
        for o in b:
            (viol if definite(o) else undecided).append((u, o))
        functions.append(dict(unit=u.name, function=u.fun, obligations=len(r["obligations"]), discharged=len(r["obligations"]) - len(b),
                              seconds=round(r["wall"], 1), callee_contracts=bool(modular[i] and u.callee_contracts), loops=r["loops"],
                              status="proved" if not r["error"] and not b and not miss and r["obligations"] else "not proved",
                              inlined=len(r["inlined"]), error=(r["error"] or "")[:300]))
    canary = run_canary(prop, order, res)
    if canary is False:
        undecided.append((UNITS[order[0]], "canary: a false postcondition was accepted"))
    violations = []
    bounded = []
    standins = []
    if not early and not viol:
        for what, ps, name, args, secs in BOUNDED:
            if prop in ps:
                f2, n2 = native_search(prop, [n for n in natives if n[0] == name], [], secs * (6 if thorough else 1), seed, args)
                standins.append(dict(unit=what, stand_in=f"bounded: random histories of at most 40 operations on the real code under ASan/UBSan against the model of native/{name}.cc, {secs * (6 if thorough else 1)} s per core", notes=n2))
                early = early or f2
                if f2:
                    viol.append((UNITS[0], dict(name=f"bounded check of {what}", status="failing run", detail=f2["output"][-1500:])))
    if viol or undecided:
        left = 840 - (time.time() - t0)
        secs = max(20, min(240 if thorough else 90, left - 120))
        found = early
        if not found:
            found, n2 = native_search(prop, natives, hints_of(res), secs, seed + 7)
            notes += n2
        names = sorted({f"{u.name}: {o['name']}" for u, o in viol}) or \
            sorted({f"{u.name}: {o['name'] if isinstance(o, dict) else o}" for u, o in undecided})
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{prop}.json")
        rep = dict(property=prop, failed_obligations=names[:40], failing_run=found,
                   counterexamples=[dict(unit=u.name, obligation=o["name"], status=o["status"], model=o.get("model"), verifier_output=o.get("detail", "")[:3000]) for u, o in (viol + [x for x in undecided if isinstance(x[1], dict)])[:20]],
                   undecided=[f"{u.name}: {(o['name'] + ' (' + o['status'] + ')') if isinstance(o, dict) else o}"[:400] for u, o in undecided][:20], notes=notes,
                   how_to_replay="build native/<harness> with the sources listed (see native_build in check.py) and run it with args")
        known = registry.known(prop, rep)
        if found or viol:
            if not known:
                json.dump(rep, open(path, "w"), indent=1, default=str)
                violations.append(path)
        for u in {x[0].name for x in undecided}:
            bounded.append(u)
        for n in names[:8]:
            print("  obligation failed:" if viol else "  undecided:", n[:300])
    for u, o in undecided[:12]:
        print("  not proved:", u.name, (o["name"] + " [" + o["status"] + "]") if isinstance(o, dict) else str(o)[:400])
    ok_units = sum(f["status"] == "proved" for f in functions)
    ev = dict(property=prop, tier=tier, seed=seed, level="proof",
              coverage=dict(obligations=nobl, discharged=ndis,
                            checker_cmd=f"python3-vt check.py {prop} --tier {tier}",
                            trusted_base=["vf/: VC generator over LLVM IR (this repository)", "clang-18 -O0, opt sroa/instsimplify/adce, llvm-link",
                                          "Z3 (python API 5.3.2)"] + sorted(trusted),
                            functions_under_contract=functions, units_proved=ok_units, units=len(UNITS), back_ends=backends,
                            solver_seconds=round(sum(r["qtime"] for r in res.values()), 1), solver_queries=sum(r["queries"] for r in res.values()),
                            bounded_not_proved=[dict(unit=u, stand_in="random histories of the real code under ASan/UBSan against the model of native/", notes=notes) for u in bounded] + standins,
                            canary="a false postcondition fails as it must" if canary else ("not run" if canary is None else "ACCEPTED: broken"),
                            samples=[]),
              assumptions=sorted(set(assumptions)), wall_s=round(time.time() - t0, 1), violations=len(violations))
    for i in order[:3]:
        ob = [o for o in res[i]["obligations"]][:: max(1, len(res[i]["obligations"]) // 4)][:5]
        ev["coverage"]["samples"] += [f"{UNITS[i].name}: {o['name']} [{o['status']}, {o['backend']}, {o['time']}s]" for o in ob]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    for line in registry.known_lines(prop):
        print(line)
    print(f"{prop}: {ndis}/{nobl} obligations discharged, {ok_units}/{len(UNITS)} units proved, {wall_proof:.0f}s proof, {time.time() - t0:.0f}s total")
    if violations:
        print(f"VIOLATION property={prop} replay={violations[0]}" + ("" if rep["failing_run"] else " no-failing-input-found"))
        return 1
    return 0


def _build_ipc(k):
    k, m, err = _build(k)
    return k, m, err


def run_canary(prop, order, res):
    """cheapest proved unit, with `false` as an extra postcondition on its first exit"""
    c = [i for i in order if not res[i]["error"] and not bad(res[i]) and res[i]["obligations"]]
    if not c:
        return None
    i = min(c, key=lambda i: res[i]["wall"])
    r = run_jobs([(i, dict(want=prop, budget=120, full_ms=10000, canary=True))])[i]
    return any(o["name"] == "canary" and o["status"] != "proved" for o in r["obligations"])


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
