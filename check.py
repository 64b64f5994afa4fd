#!/usr/bin/env python3
"""
check.py PROPERTY [--tier quick|thorough] [--jobs N] [--only SUBSTR] [-v]

Runs the symbolic harnesses of one property against /repo's current source.
Exit 0: every obligation discharged within the stated bounds.
Exit 1: VIOLATION line(s), each replayed on the real code.
Exit 2: the machinery could not decide (never counted as either).
"""

import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PYVT = "/usr/local/bin/python3-vt"
REAL_PY = "/opt/venv/bin/python"
if "z3" not in sys.modules and importlib.util.find_spec("z3") is None:
    os.execv(PYVT, [PYVT, os.path.abspath(__file__)] + sys.argv[1:])
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def plain(prop):
    """the property's module, executed natively for its job list only"""
    path = os.path.join(HERE, "props", prop.lower() + ".py")
    spec = importlib.util.spec_from_file_location("plain_" + prop.lower(), path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


_state = {}


def worker_init():
    import gc
    from sx import loader
    loader.install()
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ValueError, OSError):
        pass
    gc.freeze()


def _replay(cases, timeout=240):
    """run cases on the real code in a fresh process"""
    d = tempfile.mkdtemp(prefix="sxreplay-")
    try:
        fi, fo = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        with open(fi, "w") as f:
            json.dump(cases, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        try:
            p = subprocess.run([REAL_PY, os.path.join(HERE, "sx", "replay.py"), fi, fo], capture_output=True,
                               text=True, timeout=timeout, env=env, cwd=HERE)
        except subprocess.TimeoutExpired:
            return None, "timeout"
        if not os.path.exists(fo):
            return None, (p.stdout + p.stderr)[-2000:]
        with open(fo) as f:
            return json.load(f), ""
    finally:
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        os.rmdir(d)


def _try_models(ex, cex):
    """models of the violation, small ones first"""
    from sx import ir
    p = cex["path"]
    base = list(p.constraints)
    if cex.get("neg") is not None:
        base.append(cex["neg"])
    pref = list(p.prefer)
    seen = []
    for b in (64, 1024, 1 << 16):
        if not pref:
            break
        st, m = ex.solver.check(base + [ir.le(t, b) for t in pref if ir.le(t, b) is not True], None, rounds=12)
        if st == "sat":
            seen.append(m)
            yield m
            break
        # relax one at a time
        cur = list(base)
        for t in pref:
            c = ir.le(t, b)
            st, m2 = ex.solver.check(cur, c, rounds=6)
            if st == "sat":
                cur.append(c)
                m = m2
        if m is not None:
            yield m
    if cex["model"] is not None:
        yield cex["model"]
    # other models: push the inputs away from the first one
    m0 = cex["model"]
    names = [t for t in ir.walk(base) if t.op == "var"]
    for k, t in enumerate(names[:6]):
        if m0 is None:
            break
        v = m0.ints.get(t.args[0])
        if v is None:
            continue
        st, m = ex.solver.check(base, ir.bnot(ir.eq(t, v)), rounds=12)
        if st == "sat":
            yield m


def run_group(args):
    """jobs of one group in this worker"""
    prop, jobs, tier, opts = args
    import importlib
    from sx import ir, engine, cx as cxm, solve, loader, values
    out = []
    module = "props." + prop.lower()
    try:
        mod = importlib.import_module(module)
    except Exception:
        return [{"job": j, "error": "import: " + traceback.format_exc()[-1500:], "obligations": 0} for j in jobs]
    samples = []
    for job in jobs:
        t0 = time.time()
        if time.time() > opts["hard_deadline"]:
            out.append({"job": job, "error": "out of time", "obligations": 0})
            continue
        ir.reset()
        for k in solve.STATS:
            solve.STATS[k] = 0
        r = {"job": job, "error": None}
        ex = engine.Explorer(max_paths=job.get("max_paths", 20000),
                             seconds=min(job.get("seconds", 150), opts["hard_deadline"] - time.time()),
                             timeout_ms=job.get("timeout_ms", 4000))
        fn = getattr(mod, job["harness"])

        def make(p):
            return cxm.SymCx(p, ex)

        def harness(c):
            try:
                fn(c, **job["params"])
            finally:
                c.stubs.undo()
        try:
            ex.run(harness, make, n_samples=job.get("samples", 1))
        except Exception:
            r["error"] = "engine: " + traceback.format_exc()[-2500:]
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            r["error"] = "steer: " + traceback.format_exc()[-2500:]
        r.update(paths=ex.n_paths, infeasible=ex.n_infeasible, obligations=ex.obligations, trivial=ex.trivial,
                 proved=ex.proved, inconclusive=ex.inconclusive[:20], n_inconclusive=len(ex.inconclusive),
                 unsupported=sorted(set(ex.unsupported))[:20], n_unsupported=len(ex.unsupported),
                 complete=ex.complete, labels=ex.labels, violations=[], spurious=[])
        for cex in ex.cexs[:2]:
            hit, last, tried = None, None, 0
            try:
                for m in _try_models(ex, cex):
                    tried += 1
                    case = {"property": prop, "module": module, "harness": job["harness"], "params": job["params"],
                            "model": m.to_json(), "label": cex["label"]}
                    res, err = _replay([case])
                    last = (res[0] if res else {"status": "crash", "detail": err})
                    if res and res[0]["status"] in ("violation", "exception"):
                        hit = (case, res[0])
                        break
                    if tried >= 4:
                        break
            except Exception:
                last = {"status": "error", "detail": traceback.format_exc()[-1500:]}
            if hit:
                r["violations"].append({"case": hit[0], "result": hit[1], "label": cex["label"], "detail": cex["detail"]})
            else:
                r["spurious"].append({"label": cex["label"], "detail": cex["detail"], "replay": last})
        r["stats"] = dict(solve.STATS)
        r["seconds"] = time.time() - t0
        for asg, obs in ex.samples:
            samples.append((len(out), {"property": prop, "module": module, "harness": job["harness"],
                                       "params": job["params"], "model": asg.to_json()}, obs))
        out.append(r)
        if r["violations"] and not opts["keep_going"]:
            break
    # validate the encoding: the same inputs on the real code
    cases = [c for _, c, _ in samples]
    if cases and not any(r.get("violations") for r in out):
        res, err = _replay(cases)
        for k, (idx, case, obs) in enumerate(samples):
            r = out[idx]
            r.setdefault("validated", 0)
            if res is None:
                r.setdefault("mismatch", []).append("replay process failed: " + str(err)[-600:])
                continue
            x = res[k]
            if x["status"] == "rejected":
                continue
            want = [[n, v] for n, v in obs]
            got = [[n, v] for n, v in x["observed"]]
            if x["status"] in ("violation", "exception"):
                # the inputs came from the solver; the real code breaks the property on them
                r["violations"].append({"case": case, "result": x, "label": x["label"], "detail": "found while validating the encoding"})
                continue
            if x["status"] != "ok" or json.loads(json.dumps(want)) != json.loads(json.dumps(got)):
                r.setdefault("mismatch", []).append(json.dumps({"case": case["params"], "status": x["status"], "detail": x.get("detail"),
                                                     "want": want, "got": got, "model": case["model"]})[:1800])
            else:
                r["validated"] += 1
    files = dict(loader.LOADED)
    if out:
        out[-1]["files"] = sorted(p for p in files.values() if "/src/ethereum" in p)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", default=None)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    m = plain(prop)
    jobs = m.jobs(tier)
    if a.only:
        jobs = [j for j in jobs if a.only in json.dumps(j)]
    if a.list:
        for j in jobs:
            print(j)
        return 0
    with open(os.path.join(HERE, "known_findings.json")) as f:
        known = [k for k in json.load(f)["findings"] if k["property"] == prop]

    # groups: same fork together, heavy ones split
    groups = {}
    for j in jobs:
        groups.setdefault(j.get("group", j["params"].get("fork", "")), []).append(j)
    total_w = sum(j.get("weight", 1) for j in jobs)
    cap = max(total_w / (a.jobs * 3), 1)
    tasks = []
    for g, js in groups.items():
        cur, w = [], 0
        for j in js:
            cur.append(j)
            w += j.get("weight", 1)
            if w >= cap:
                tasks.append((w, cur))
                cur, w = [], 0
        if cur:
            tasks.append((w, cur))
    tasks.sort(key=lambda t: -t[0])
    budget = getattr(m, "BUDGET", {}).get(tier, 600 if tier == "quick" else 6 * 3600)
    opts = {"hard_deadline": t0 + budget, "keep_going": a.keep_going}
    results = []
    ctx = mp.get_context("fork")
    import sx.engine, sx.loader, sx.cx  # noqa: F401,E401  (warm before forking)
    sx.loader.install()
    for n in [n for n in sys.modules if n.split(".")[0] in sx.loader.ROOTS]:
        del sys.modules[n]      # the workers load their own, instrumented
    with ctx.Pool(min(a.jobs, max(1, len(tasks))), initializer=worker_init) as pool:
        for rs in pool.imap_unordered(run_group, [(prop, js, tier, opts) for _, js in tasks]):
            results.extend(rs)
            if a.v:
                for r in rs:
                    print("  ", r["job"]["harness"], r["job"]["params"], "paths", r.get("paths"), "obl", r.get("obligations"),
                          "t %.1f" % r.get("seconds", 0), "q", r.get("stats", {}).get("queries"),
                          "ERR " + r["error"] if r["error"] else "", "VIOL" if r.get("violations") else "",
                          "SPUR" if r.get("spurious") else "", "UNS" if r.get("n_unsupported") else "", flush=True)
            if any(r.get("violations") for r in rs) and not a.keep_going:
                if not all(matches(known, r, v) for r in rs for v in r.get("violations", [])):
                    pool.terminate()
                    break

    code = report(prop, tier, seed, m, jobs, results, known, time.time() - t0, a.v)
    return code


def matches(known, r, v):
    for k in known:
        if k.get("status") == "fixed":
            continue
        if k["harness"] == r["job"]["harness"] and k["params"] == r["job"]["params"] and k["label"] == v["label"]:
            return k
    return None


def report(prop, tier, seed, m, jobs, results, known, wall, verbose):
    problems, notes, violations = [], [], []
    S = lambda k: sum(r.get(k) or 0 for r in results)  # noqa: E731
    stats = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + v
    labels = {}
    for r in results:
        for l, st in r.get("labels", {}).items():
            t = labels.setdefault(l, [0, 0, 0, 0])
            for i in range(4):
                t[i] += st[i]
    n_known = 0
    rep_dir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rep_dir, exist_ok=True)
    for r in results:
        name = f"{r['job']['harness']} {json.dumps(r['job']['params'])}"
        if r["error"]:
            problems.append(f"{name}: {r['error']}")
            continue
        for v in r["violations"]:
            k = matches(known, r, v)
            if k:
                n_known += 1
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
                continue
            path = os.path.join(rep_dir, f"{prop}-{len(violations)}.json")
            case = dict(v["case"], observed=None)
            with open(path, "w") as f:
                json.dump(case, f, indent=1)
            violations.append((path, name, v))
        for s in r["spurious"]:
            problems.append(f"{name}: counterexample to '{s['label']}' does not reproduce on the real code: "
                            f"{json.dumps(s['replay'])[:700]} term {s['detail'][:3000]}")
        for x in r.get("mismatch", []):
            problems.append(f"{name}: encoding mismatch {x}")
        if not r["complete"] and not r["violations"]:
            problems.append(f"{name}: exploration incomplete after {r['paths']} paths, {r['seconds']:.0f}s")
        if r["n_unsupported"]:
            problems.append(f"{name}: unsupported on {r['n_unsupported']} path(s): {r['unsupported'][:3]}")
        if r["obligations"] == 0 and not r["violations"]:
            problems.append(f"{name}: vacuous, no obligation reached")
        for x in r["inconclusive"]:
            notes.append(f"INCONCLUSIVE {name}: {x}")
    if len(results) < len(jobs) and not violations:
        problems.append(f"only {len(results)} of {len(jobs)} jobs ran")
    n_inc = S("n_inconclusive")
    if n_inc > max(2, 0.02 * max(1, S("obligations"))):
        problems.append(f"{n_inc} obligations inconclusive")
    files = sorted(set(f for r in results for f in r.get("files", [])))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"),
            "transitions": stats.get("queries", 0),
            "traces_validated_against_impl": S("validated"),
            "samples": [{"job": r["job"]["harness"], "params": r["job"]["params"], "paths": r.get("paths"),
                         "obligations": r.get("obligations"), "labels": sorted(r.get("labels", {}))[:12]}
                        for r in results[:6]],
            "explanation": "symbolic execution of the current source: states = feasible symbolic paths completed, "
                           "transitions = satisfiability queries on path conditions and negated obligations; each "
                           "obligation holds for every value of the symbolic inputs of its path",
            "jobs": len(results), "obligations": S("obligations"),
            "discharged_by_normal_form": S("trivial"), "discharged_by_solver": S("proved"),
            "inconclusive": n_inc, "infeasible_paths": S("infeasible"),
            "solver": {k: (round(v, 2) if isinstance(v, float) else v) for k, v in stats.items()},
            "obligation_labels": {l: {"total": t[0], "normal_form": t[1], "solver": t[2], "inconclusive": t[3]}
                                  for l, t in sorted(labels.items())},
            "functions_encoded": getattr(m, "ENCODED", []),
            "files_encoded": len(files),
            "bounds": getattr(m, "BOUNDS", ""),
        },
        "assumptions": getattr(m, "ASSUMPTIONS", []),
        "wall_s": round(wall, 1),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes[:20]:
        print(n)
    print(f"{prop} [{tier}]: {len(results)} jobs, {S('paths')} paths, {S('obligations')} obligations "
          f"({S('trivial')} by normal form, {S('proved')} by solver, {n_inc} inconclusive), "
          f"{stats.get('queries', 0)} queries in {stats.get('time', 0):.1f}s, {S('validated')} traces validated, {wall:.1f}s")
    if violations:
        for path, name, v in violations:
            print(f"  {name}: {v['label']} -- {v['result'].get('detail', '')[-500:]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problems:
        for p in problems[:30]:
            print("ERROR", p)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
