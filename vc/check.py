"""Decide one property: python3-vt vc/check.py C05 [--tier quick|thorough] [--task NAME] [-v]

Every run: clang dumps the AST of /repo's current sources, every contract task tagged with the property
is executed symbolically, and every obligation tagged with the property must be discharged.
"""
import sys, os, json, time, pickle, tempfile, traceback, subprocess, hashlib, shutil, re
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
import front
import spec
import prover
import terms as T
from values import Unsupported

T0 = time.time()
BUDGET = float(os.environ.get("VC_BUDGET", "560"))
MAXFAIL = 4


def load_tasks():
    import contracts
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if f.endswith(".py") and not f.startswith("_"):
            __import__("contracts." + f[:-3])
    return spec.TASKS


def fork_map(items, fn, n):
    """run fn(item) for every item in at most n forked processes at a time; yields (item, result)"""
    pend = list(range(len(items)))
    live = {}
    res = [None] * len(items)
    d = tempfile.mkdtemp(prefix="vc_")
    try:
        while pend or live:
            while pend and len(live) < n:
                i = pend.pop(0)
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        r = fn(items[i])
                    except BaseException:
                        r = {"error": traceback.format_exc()}
                    try:
                        with open(os.path.join(d, str(i)), "wb") as f:
                            pickle.dump(r, f)
                    except BaseException:
                        code = 1
                    os._exit(code)
                live[pid] = i
            pid, st = os.wait()
            if pid in live:
                i = live.pop(pid)
                p = os.path.join(d, str(i))
                try:
                    with open(p, "rb") as f:
                        res[i] = pickle.load(f)
                except Exception:
                    res[i] = {"error": "worker died (status %s)" % st}
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def discharge(todo, verbose, par=3):

    def work(idx):
        out = []
        nf = 0
        for i in idx:
            o = todo[i]
            if time.time() - T0 > BUDGET or nf >= MAXFAIL:
                out.append((o.label, o.where, "not attempted", "", 0.0, "", ""))
                continue
            t = time.time()
            try:
                r = prover.prove(o.ctx, o.goal)
                st, be, det = r.status, r.backend, r.detail
                model = ""
                if st != "proved":
                    nf += 1
                    model = str(getattr(r, "model", "") or "")[:2000]
            except T.NormalFormLimit as e:
                st, be, det, model = "unknown", "normal form", str(e), ""
                nf += 1
            goal = ""
            if st != "proved" or verbose > 1:
                goal = T.show(o.goal)[:1500] + "   [path: " + " & ".join(T.show(c)[:200] for c in o.ctx.ground[-12:]) + "]"
            out.append((o.label, o.where, st, be, time.time() - t, det, goal + ("\nmodel: " + model if model else "")))
        return {"r": out, "stats": dict(prover.stats)}
    if len(todo) <= 6:
        rs = [work(list(range(len(todo))))]
    else:
        chunks = [list(range(k, len(todo), par)) for k in range(par)]
        rs = fork_map(chunks, work, par)
    res = []
    st = {"z3_time": 0.0}
    for r in rs:
        if "error" in r:
            raise RuntimeError(r["error"])
        res += r["r"]
        st["z3_time"] += r["stats"]["z3_time"] + r["stats"]["entail_time"]
    return res, st


def run_task(args):
    task, prop, verbose = args
    t = time.time()
    v = spec.V(task)
    try:
        task.fn(v)
    except (Unsupported, T.NormalFormLimit) as e:
        return {"unsupported": "%s: %s" % (type(e).__name__, e), "where": (v.ex.where or [""])[-1], "inlined": sorted(v.ex.inlined), "tb": traceback.format_exc()}
    except (KeyError, AttributeError, IndexError, TypeError, AssertionError, RecursionError, NotImplementedError) as e:
        # the executor met a shape it was not written for: outside its reach
        return {"unsupported": "%s: %s" % (type(e).__name__, e), "where": (v.ex.where or [""])[-1], "inlined": sorted(v.ex.inlined), "tb": traceback.format_exc()}
    texec = time.time() - t
    res, st = discharge([o for o in v.ex.obls if prop in o.props], verbose)
    # premises: obligations of other properties (memory safety, invariants) which the paths of this task assume
    pre, st2 = discharge([o for o in v.ex.obls if o.premise and prop not in o.props], verbose)
    st = {"z3_time": st["z3_time"] + st2["z3_time"]}
    # vacuity guard: some normally returning path, or the precondition alone, must not be contradictory
    vac = None
    ctxs = v.normal or ([v.pre] if v.pre is not None else [])
    if ctxs:
        vac = True
        for c in ctxs[:6]:
            try:
                r = prover.prove(c, T.FALSE, timeout_ms=1500)
                if r.status != "proved":
                    vac = False
                    break
            except T.NormalFormLimit:
                vac = False
                break
    return {"res": res, "pre": pre, "stats": st, "exec_s": texec, "wall": time.time() - t, "vacuous": vac, "funcs": v.funcs, "inlined": sorted(v.ex.inlined),
            "contracts": sorted(v.ex.used_contracts), "assumptions": list(v.assumptions), "structural": sorted(v.ex.covers)}


# ------------------------------------------------------------------ replay on the real code
CXX = ["g++", "-std=c++17", "-O1", "-g0", "-w", "-fno-access-control", "-DFMT_HEADER_ONLY=1",
       "-DMINI_OPT_SERIALIZATION", "-DMINI_OPT_TRACING"]


def build_harness(prop, outdir):
    src = os.path.join(VERIF, "replay", prop + ".cc")
    if not os.path.exists(src):
        return None, "no harness"
    cc = sorted(os.path.join(front.REPO, "source", f) for f in os.listdir(os.path.join(front.REPO, "source")) if f.endswith(".cc"))
    flags = CXX + ["-I" + front.REPO + "/include", "-I" + os.path.join(VERIF, "replay"), "-isystem", "/usr/include/eigen3"]
    m = re.match(r"// FLAGS: (.*)", open(src).readline())
    extra = m.group(1).split() if m else []
    flags += extra
    procs = []
    for c in cc + [src]:
        o = os.path.join(outdir, os.path.basename(c)[:-3] + ("_h" if c == src else "") + ".o")
        procs.append((c, o, subprocess.Popen(flags + ["-c", c, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    errs = ""
    for c, o, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            errs += c + ":\n" + out[-2000:]
    if errs:
        return None, errs
    exe = os.path.join(outdir, prop)
    p = subprocess.run(["g++", "-o", exe] + [o for _, o, _ in procs] + ["-pthread"] + extra, capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr[-2000:]
    return exe, ""


def harness(prop, seed, tier):
    d = tempfile.mkdtemp(prefix="vh_")
    try:
        exe, err = build_harness(prop, d)
        if exe is None:
            return "none", err
        secs = "20" if tier == "quick" else "240"
        try:
            p = subprocess.run([exe, str(seed), secs], capture_output=True, text=True, errors="replace", timeout=float(secs) + 150, cwd=d)
        except subprocess.TimeoutExpired as e:
            return "fail", "the harness did not terminate: an execution of the library hung\n" + str((e.stdout or b"")[-3000:])
        out = p.stdout[-20000:] + p.stderr[-6000:]
        if p.returncode == 0:
            return "pass", out
        if re.search(r"FATAL: \w*Sanitizer", out):
            return "none", "the sanitizer does not run here: " + out[-300:]
        return "fail", out + "\nexit status %d" % p.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    verbose = sys.argv.count("-v")
    only = None
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--task" in sys.argv:
        only = sys.argv[sys.argv.index("--task") + 1]
    noreplay = "--no-replay" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if tier == "thorough":
        prover.Z3_TIMEOUT_MS *= 3
        globals()["BUDGET"] = float(os.environ.get("VC_BUDGET", "3000"))
    tasks = [t for t in load_tasks() if prop in t.props and (only is None or only in t.name)]
    if not tasks:
        print("no tasks for", prop)
        return 2
    front_err = None
    try:
        front.preload(sorted({u for t in tasks for u in t.units}))
    except front.FrontError as e:
        front_err = str(e)
    results = []
    if front_err is None:
        order = sorted(tasks, key=lambda t: -len(t.props) if False else 0)
        results = fork_map([(t, prop, verbose) for t in order], run_task, 6)
    else:
        results = [{"unsupported": "front end: " + front_err[:500]} for _ in tasks]
    nob = ndis = 0
    failed = []
    unsup = []
    errors = []
    empty = []
    backends = {}
    z3t = 0.0
    samples = []
    funcs = []; inl = set(); cons = set(); ass = []
    per = []
    structural = 0
    slow = []
    npre = 0
    pre_failed = []
    for t, r in zip(tasks, results):
        if "error" in r:
            errors.append((t.name, r["error"]))
            continue
        if "unsupported" in r:
            unsup.append((t.name, r["unsupported"], r.get("where", "")))
            if verbose:
                print("UNSUPPORTED", t.name, r["unsupported"], r.get("tb", ""))
            continue
        if r["vacuous"]:
            errors.append((t.name, "vacuous: the assumptions of the task are contradictory"))
        if not r["res"] and not r["structural"]:
            empty.append(t.name)
        n = 0
        for label, where, st, be, secs, det, goal in r["res"]:
            nob += 1
            if st == "proved":
                ndis += 1; n += 1
                backends[be] = backends.get(be, 0) + 1
                if secs > 2:
                    slow.append("%s %.1fs" % (label, secs))
            else:
                failed.append((t.name, label, where, st, det, goal))
            if len(samples) < 12 and be not in ("normal form", ""):
                samples.append(label)
        npre += len(r["pre"])
        pre_failed += [(t.name, label, where, st, det, goal) for label, where, st, be, secs, det, goal in r["pre"] if st != "proved"]
        structural += len(r["structural"])
        z3t += r["stats"]["z3_time"]
        funcs += [f for f in r["funcs"] if f not in funcs]
        inl |= set(r["inlined"]); cons |= set(r["contracts"])
        ass += [a for a in r["assumptions"] if a not in ass]
        per.append({"task": t.name, "obligations": len(r["res"]), "discharged": n, "wall_s": round(r["wall"], 2)})
        if verbose:
            print("  %-52s %4d/%-4d exec %.1fs total %.1fs%s" % (t.name, n, len(r["res"]), r["exec_s"], r["wall"], " VACUOUS" if r["vacuous"] else ""))
    if len(empty) == len(results):
        errors.append(("all tasks", "no obligation generated for " + prop))
    if verbose:
        for f in failed:
            print("FAILED", f[0], "|", f[1], "|", f[2], "|", f[3], f[4], "\n     ", f[5])
        for f in pre_failed:
            print("PREMISE", f[0], "|", f[1], "|", f[2], "|", f[3], f[4], "\n     ", f[5])
        for e in errors:
            print("ERROR", e[0], e[1])
        for s in slow:
            print("  slow:", s)
    rc = 0
    hs, hout = None, ""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    need = bool(failed) or bool(pre_failed) or bool(unsup) or bool(errors) or tier == "thorough"
    if need and not noreplay:
        hs, hout = harness(prop, seed, tier)
    violation = None
    if failed or hs == "fail":
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s.txt" % prop)
        with open(rp, "w") as f:
            f.write("property %s\n" % prop)
            for x in failed:
                f.write("failed obligation: %s\n  in: %s (%s)\n  verifier: %s %s\n  goal: %s\n" % (x[1], x[0], x[2], x[3], x[4], x[5]))
            for x in pre_failed:
                f.write("failed premise (an obligation of another property which the proof assumes): %s\n  in: %s (%s)\n  verifier: %s %s\n  goal: %s\n" % (x[1], x[0], x[2], x[3], x[4], x[5]))
            for x in unsup:
                f.write("outside the verifier's reach: %s: %s %s\n" % x)
            f.write("\nreplay on the real code (replay/%s.cc, seed %d): %s\n%s\n" % (prop, seed, hs, hout))
        violation = rp
        rc = 1
    level = "proof"
    cov = {"obligations": nob, "discharged": ndis,
           "premises": {"checked": npre, "discharged": npre - len(pre_failed), "failed": ["%s [%s]" % (x[1], x[2]) for x in pre_failed[:8]],
                        "meaning": "obligations of other properties (memory safety, invariants) which the paths of these tasks assume"},
           "checker_cmd": "python3-vt vc/check.py %s --tier %s" % (prop, tier),
           "trusted_base": TRUSTED, "functions_under_contract": funcs, "inlined_functions": sorted(inl),
           "contracts_used_at_calls": sorted(cons), "backends": backends, "solver_s": round(z3t, 2), "tasks": per,
           "trivially_true_obligations_folded_at_generation": structural, "samples": samples,
           "bounded_stand_in": [{"task": a, "reason": b, "where": c, "bound": "replay/%s.cc, random and directed inputs, seed %d" % (prop, seed)} for a, b, c in unsup],
           "replay": {"run": hs is not None, "result": hs, "tail": hout[-400:]}}
    if unsup and not per:
        # nothing was proved: only the bounded stand-in ran
        level = "other"
        cov["explanation"] = "bounded stand-in only: " + "; ".join("%s: %s" % (a, b) for a, b, c in unsup)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ass, "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    kf = os.path.join(VERIF, "known_findings.txt")
    if violation:
        for x in failed[:8]:
            print("failed obligation: %s [%s]" % (x[1], x[2]))
        for x in pre_failed[:4]:
            print("failed premise: %s [%s]" % (x[1], x[2]))
        if hs == "fail":
            print(hout[-1500:])
        print("VIOLATION property=%s replay=%s%s" % (prop, violation, "" if hs == "fail" else " no-failing-input-found"))
        return 1
    if errors:
        for e in errors:
            print("ERROR in %s: %s" % e)
        if hs != "pass":
            return 2
    if unsup:
        for u in unsup:
            print("bounded stand-in for %s: %s (%s)" % (u[0], u[1], u[2]))
        if hs != "pass" and not noreplay:
            print("stand-in not available:", hout[-800:])
            return 2
    if pre_failed:
        # decided by the check of the property the premise belongs to; here only a failing input counts
        for x in pre_failed[:4]:
            print("premise not established: %s [%s]" % (x[1], x[2]))
    print("%s: %d/%d obligations (%d/%d premises) discharged, %s, %.1fs%s" % (prop, ndis, nob, npre - len(pre_failed), npre, backends, time.time() - T0, (", replay " + hs) if hs else ""))
    return 0


TRUSTED = [
    "clang 18 front end (AST of /repo's current sources)",
    "vc/ (the verifier: normal forms, symbolic execution, contracts of Eigen and the standard library)",
    "z3 / cvc5",
    "machine arithmetic: double treated as real numbers, int as mathematical integers",
]

if __name__ == "__main__":
    sys.exit(main())
