#!/usr/bin/env python3-vt
"""check.py PID [--tier quick|thorough]: decide one property of the tree in /repo.

1. parse the current sources (clang JSON AST), 2. generate and discharge every
obligation of the contracts behind the property, function by function, 3. if some
obligation is not discharged: search a failing input on the real code (native replay
driver), then re-verify the function with bounded loops; report."""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") in (None, "", "random"):      # same queries, in the same order, on every run
    os.environ["PYTHONHASHSEED"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "native"))
import props
from dv import cast, pool, smt

T0 = time.time()
EVID = os.environ.get("VERIF_EVID", os.path.join(HERE, "evidence"))


def log(*a):
    print(*a, flush=True)


def load(P, flags=None):
    prog = cast.Program(P["files"], flags) if flags is not None else cast.Program(P["files"])
    from specs import base
    for m in P["mods"]:
        importlib.import_module("specs." + m)
    return prog, base.C


def attach(prog, C):
    """contracts whose function is gone or has another arity are detached: the
    function's callers then see its (new) body instead"""
    gone = []
    for n in list(C):
        fn, _ = prog.func(n)
        if fn is None:
            continue
        k = sum(1 for c in fn.get("inner", []) if c["kind"] == "ParmVarDecl")
        if k != len(C[n].params):
            gone.append(n)
            del C[n]
    return gone


def run_functions(prog, C, names, cap, deadline, unroll=None, timeout=None, quiet=False):
    from dv.verify import verify

    def go(n):
        import z3
        t, best = time.time(), None
        for sd in (0, 7, 23):      # solver luck: another seed before giving up
            z3.set_param("smt.random_seed", sd)
            z3.set_param("sat.random_seed", sd)
            smt.CAND_SCALE[0] = {0: 1.0, 7: 2.5, 23: 1.0}[sd]
            r = verify(prog, C, n, unroll=unroll, timeout=timeout or 10.0)
            if best is not None:
                r.solver_time += best.solver_time
                r.queries += best.queries
            best = r
            if r.status != "unknown" or time.time() - t > cap / 2.5:
                break
        r.model = str(getattr(r, "model", "") or "")[:6000]
        return r

    def done(n, res):
        if quiet:
            return
        if res[0] == "ok":
            r = res[1]
            log("  %-34s %-8s obligations %3d  loop steps %3d  %.1fs%s" % (
                n, r.status, len(r.obls), r.n_loop_obls, r.time, "" if r.status == "proved" else "  " + r.detail.split("\n")[0]))
        else:
            log("  %-34s %s" % (n, res[0]))
    order = sorted(names, key=lambda n: -props.COST.get(n, 1))
    return pool.run(order, go, workers=int(os.environ.get("DV_JOBS", "8")), cap=cap, deadline=deadline, on_done=done)


def falsify(pid, P, seed, secs, seeds=2):
    """-> (status, text): 'fail' with the driver's message, 'ok', or 'none'"""
    import build
    d = tempfile.mkdtemp(prefix="dvn")
    try:
        objs, bad = build.library(d)
        if bad:
            return "none", "the tree does not compile for replay:\n" + bad[0][:2000], 0
        cases = 0
        status = "none"
        notes = []
        for drv in P.get("drivers", [pid]):
            src = os.path.join(HERE, "native", drv + ".c")
            if not os.path.exists(src):
                continue
            exe = os.path.join(d, drv)
            ok, err = build.driver(d, objs, src, exe)
            if not ok:
                notes.append("driver %s does not build: %s" % (drv, err[:1500]))
                continue
            for s in range(seeds):
                w = tempfile.mkdtemp(dir=d)
                env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", OMP_NUM_THREADS="1")
                cmd = [exe, str(seed + 1000 * s), str(secs)]
                try:
                    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", cwd=w, env=env, timeout=secs * 6 + 30)
                except subprocess.TimeoutExpired:
                    # a hang inside the code under test
                    notes.append("driver %s did not end within %d s" % (drv, secs * 6 + 30))
                    return "fail", "replay driver %s seed %s: the code under test does not terminate" % (drv, cmd[1]), cases
                if r.returncode == 0 and "OK " in r.stdout:
                    status = "ok"
                    cases += int(r.stdout.strip().split()[-1])
                    continue
                msg = (r.stdout[-1500:] + "\n" + r.stderr[-3000:]).strip()
                return "fail", "replay driver native/%s.c seed %s: exit %s\n%s" % (drv, cmd[1], r.returncode, msg), cases
        return status, "\n".join(notes), cases
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_replay(pid, text):
    d = EVID
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "replay-%s.txt" % pid)
    open(p, "w").write(text)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    P = props.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = a.budget or (560.0 if tier == "quick" else 3000.0)
    cap = P.get("cap", 150.0) if tier == "quick" else 600.0
    log("property %s: %s" % (pid, P["title"]))
    results, notes, errors = {}, [], []
    problems = []          # (function, status, detail, result)
    lemma_res = []
    gone = []
    missing = []
    names = list(P["funcs"])
    try:
        prog, C = load(P)
        gone = attach(prog, C)
        names = [n for n in names if n in C]
        missing = [n for n in names if prog.func(n)[0] is None]
        names = [n for n in names if n not in missing]
        if os.environ.get("DV_ONLY"):      # development: one function only
            names = [n for n in names if n == os.environ["DV_ONLY"]]
        if not names:
            errors.append("none of the functions under contract exists any more")
    except cast.ExtractionError as e:
        errors.append("extraction: %s" % e)
        names = []
    deadline = T0 + budget
    for lem in P.get("lemmas", ()):
        t = time.time()
        st, det = props.run_lemma(lem)
        lemma_res.append((lem, st, time.time() - t))
        log("  lemma %-28s %s" % (lem, st))
        if st != "proved":
            problems.append((lem, st, det, None))
    if names:
        results = run_functions(prog, C, names, cap, deadline)
        if tier == "thorough":
            log("  sequential macro configuration (PARALLEL off):")
            prog2 = cast.Program(P["files"], [])
            r2 = run_functions(prog2, C, names, cap, T0 + budget)
        else:
            r2 = {}
        for tag, rr in (("", results), (" [PARALLEL off]", r2)):
            for n, res in sorted(rr.items()):
                if res[0] != "ok":
                    problems.append((n + tag, res[0], "solver process: %s" % (res[1],), None))
                elif res[1].status != "proved":
                    problems.append((n + tag, res[1].status, res[1].detail, res[1]))
    for n in missing:
        notes.append("%s is not in the tree any more: its callers are verified with the code that replaced it" % n)
    for n in gone:
        notes.append("%s changed its signature: contract detached, callers verified against its body" % n)

    # ---------------------------------------------------------------- decide
    rc = 0
    violations = []
    verdict = "proved"
    fstat, ftext, fcases = "not-run", "", 0
    standin = P.get("standin")
    bounded_used = {}
    if True:       # always: also covers what the contracts assume (trusted contracts, machine arithmetic), within its bound
        secs = (6 if problems or errors else 4) if tier == "quick" else 30
        fstat, ftext, fcases = falsify(pid, P, seed, secs, seeds=(3 if problems else 1) if tier == "quick" else 4)
        log("  replay on the real code: %s (%d cases)%s" % (fstat, fcases, "\n    " + ftext.replace("\n", "\n    ") if ftext else ""))
    if fstat == "fail":
        rc, verdict = 1, "violated"
        txt = "property %s: %s\n\nUndischarged obligations:\n" % (pid, P["title"])
        for n, st, det, r in problems:
            txt += "  %s: %s: %s\n" % (n, st, det)
            if r is not None and getattr(r, "model", ""):
                txt += "    countermodel: %s\n" % r.model[:3000]
        if not problems:
            txt += "  (none: found by the labelled bounded stand-in for %s)\n" % ", ".join(standin or ["what the contracts assume"])
        txt += "\nFailing run on the real code:\n" + ftext + "\n\nReplay: cd /verif/native && SEED=%d python3 build.py %s\n" % (
            seed, " ".join(P.get("drivers", [pid])))
        rp = write_replay(pid, txt)
        violations.append(txt[:2000])
        log("VIOLATION property=%s replay=%s" % (pid, rp))
    elif problems:
        todo = [p[0] for p in problems if p[0] in results]
        log("  bounded re-verification of the functions with undischarged obligations:")
        bad = []
        left = max(30.0, min(240.0, T0 + budget + 200 - time.time()))
        for k in (2,):
            br = run_functions(prog, C, todo, min(150.0, left), time.time() + left, unroll=k, timeout=20)
            for n in todo:
                res = br.get(n, ("timeout", None))
                if res[0] == "ok" and res[1].status == "proved":
                    bounded_used[n] = k
                elif res[0] == "ok" and res[1].status in ("failed", "unknown"):
                    bad.append((n, res[1].status, res[1].detail, res[1]))
                else:
                    notes.append("%s: undecided (%s)" % (n, res[1].detail if res[0] == "ok" else res[0]))
        lem_bad = [p for p in problems if p[0] not in results and "[" not in p[0]]
        defin = [b for b in bad if b[1] == "failed"]
        if defin or lem_bad:
            rc, verdict = 1, "violated"
            txt = "property %s: %s\n\nObligations the verifier refuses (unbounded, and again with loops bounded to 2):\n" % (pid, P["title"])
            for n, st, det, r in lem_bad + bad:
                txt += "  %s: %s: %s\n    verifier output: %s\n" % (n, st, det, (getattr(r, "model", "") or "")[:3000])
            txt += "\nNo failing input was found by %d replay cases on the real code.\n" % fcases
            rp = write_replay(pid, txt)
            violations.append(txt[:2000])
            log("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        else:
            verdict = "bounded" if not bad and len(bounded_used) == len(todo) else "undecided"
            for n, st, det, r in bad:
                notes.append("%s: undecided (%s)" % (n, det))
    elif errors or (names == [] and not P.get("lemmas")):
        verdict = "undecided"
    if standin and verdict == "proved":
        verdict = "proved, except the bounded stand-in for " + ", ".join(standin)
    # ---------------------------------------------------------------- known findings
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for f in json.load(open(kf)).get("findings", []):
            if f["property"] == pid:
                log("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    # ---------------------------------------------------------------- evidence
    ok = [r[1] for r in results.values() if r[0] == "ok"]
    proved = [r for r in ok if r.status == "proved"]
    ob = sum(len(r.obls) + r.n_loop_obls for r in ok) + len(lemma_res)
    dis = sum(sum(1 for o in r.obls if o[2] == "proved") + r.n_loop_obls for r in ok) + sum(1 for l in lemma_res if l[1] == "proved")
    used = sorted(set(u for r in ok for u in r.used))
    ext = sorted(set(u for r in ok for u in r.externals))
    trusted = sorted(n for n in used if n in C and C[n].trusted) if names else []
    assumed = sorted(n for n in used if n in C and not C[n].trusted and n not in names) if names else []
    assumptions = list(props.COMMON_ASSUMPTIONS) + list(P.get("assumptions", ()))
    if trusted:
        assumptions.append("assumed contracts (not checked against a body): " + ", ".join(trusted))
    if assumed:
        assumptions.append("contracts used here and discharged by the check of another property: " + ", ".join(assumed))
    if ext:
        assumptions.append("library functions modelled by the engine: " + ", ".join(ext))
    cov = {
        "obligations": ob, "discharged": dis,
        "checker_cmd": "python3-vt check.py %s --tier %s" % (pid, tier),
        "trusted_base": ["clang 18 (parsing, types)", "dv/ (VC generator of this repository)", "z3 (python binding) as back end"],
        "functions_under_contract": len(names),
        "functions_proved": sorted(r.name for r in proved),
        "functions_bounded": bounded_used,
        "functions_not_proved": sorted(p[0] for p in problems),
        "lemmas": [{"name": l, "status": s, "s": round(t, 2)} for l, s, t in lemma_res],
        "solver_queries": sum(r.queries for r in ok), "solver_time_s": round(sum(r.solver_time for r in ok), 2),
        "inlined_helpers": sorted(set(u for r in ok for u in r.inlined)),
        "verdict": verdict,
        "replay": {"status": fstat, "cases": fcases, "bounded_stand_in_for": standin or []},
        "notes": notes + errors,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "proof"), "coverage": cov,
          "assumptions": assumptions, "violations": violations, "wall_s": round(time.time() - T0, 2)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    log("%s %s: %d functions under contract, %d/%d obligations discharged, solver %.1f s, wall %.1f s" % (
        pid, verdict, len(names), dis, ob, cov["solver_time_s"], ev["wall_s"]))
    for n in notes + errors:
        log("  note: " + n)
    sys.exit(rc)


if __name__ == "__main__":
    main()
