#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  - decides one property of /repo by symbolic execution + SMT."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
WORKER = os.path.join(HERE, "vt", "replay_worker.py")

_serv = None


def serve(req):
    global _serv
    if _serv is None or _serv.poll() is not None:
        _serv = subprocess.Popen([PY, WORKER, "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True, bufsize=1)
    _serv.stdin.write(json.dumps(req) + "\n")
    _serv.stdin.flush()
    import select
    if not select.select([_serv.stdout], [], [], 60)[0]:
        _serv.kill()
        _serv = None
        return {"error": "replay worker timeout"}
    line = _serv.stdout.readline()
    if not line:
        _serv = None
        return {"error": "replay worker died"}
    return json.loads(line)


def replay_fresh(req):
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as fp:
        json.dump(req, fp)
    try:
        p = subprocess.run([PY, WORKER, fp.name], capture_output=True, text=True, timeout=120)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 3, "replay timed out"
    finally:
        os.unlink(fp.name)


class Alarm(BaseException):
    pass


def _alarm(*a):
    raise Alarm()


def run_job(job):
    t0 = time.time()
    from vt import poly as P, paths, shims, sarr
    from vt.symctx import SymCtx
    from vt.poly import Unsupported
    P.REG.reset()
    paths.STATS.__init__()
    sarr.F32_COUNT[0] = 0
    shims.FILES.clear()
    shims.HOOKS.reset()
    mod = importlib.import_module("vt.props." + job["mod"])
    if getattr(mod, "MACHINE_INTS", False):
        from vt import ints
        ints.install()
    h = getattr(mod, job["h"])
    res = {"name": job["name"], "violations": [], "unconfirmed": [], "undecided": [], "concord": 0, "mismatch": [],
           "funcs": [], "paths": 0, "reached": 0, "sample": None}
    funcs = set()
    expl = paths.Explorer(max_paths=job.get("max_paths", 20000), time_limit=job["limit"])
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(job["limit"]) + 20)
    base = {"property": job["prop"], "mod": job["mod"], "h": job["h"], "params": job["params"]}
    seen_labels = set()
    try:
        def body():
            for k, f in job.get("pre", {}).items():
                pass
            sarr.F32_COUNT[0] = 0
            P.FP[0] = False
            P.FPN[0] = 0
            shims.FILES.clear()
            L = shims.Lifted()
            ctx = SymCtx(L, expl, job, seed=job["seed"])
            try:
                h(ctx, **job["params"])
            except Exception as e:
                ctx.fail("harness: %s: %s @%s" % (type(e).__name__, str(e)[:160], _where(e)))
            funcs.update(L.functions)
            return ctx

        for ctx, pc in expl.run(body):
            res["paths"] += 1
            res["reached"] += ctx.reached
            for u in ctx.undecided:
                res["undecided"].append(u)
            for c in ctx.failed:
                key = re.sub(r"\d+", "#", c.label)
                if key in seen_labels and len(res["violations"]) + len(res["unconfirmed"]) > 5:
                    continue
                seen_labels.add(key)
                confirm(ctx, c, base, res, expl)
            if res["concord"] < 2 and not ctx.failed and not job.get("no_concord"):
                concord(ctx, base, res, expl, pc)
            if len(res["violations"]) >= 3:
                break
    except Unsupported as e:
        res["undecided"].append("unsupported: %s @%s" % (e, _where(e)))
    except Alarm:
        res["undecided"].append("job time limit")
    except RecursionError as e:
        res["undecided"].append("recursion")
    except Exception as e:
        res["undecided"].append("engine: " + traceback.format_exc()[-700:])
    finally:
        signal.alarm(0)
    if (res["undecided"] or os.environ.get("VERIF_WITNESS")) and not res["violations"]:
        witness_search(base, res, job)
    res["stats"] = dict(vars(paths.STATS))
    res["funcs"] = sorted(funcs)
    res["notes"] = sorted(set(expl.domain_notes) | P.REG.notes)
    res["nvars"] = sum(1 for v in P.REG.vars if v.arg is None and v.kind != "uf")
    res["wall"] = time.time() - t0
    return res


def witness_search(base, res, job):
    """the solver left something open in this job: look for a concrete input on which the real code breaks the property.
    Can only produce a violation (with its replay), never a pass."""
    t0 = time.time()
    for k, style in enumerate((None, None, None, "positive", "negative", "int", "large", "small", None, "int")):
        if time.time() - t0 > 40:
            return
        r = serve(dict(base, env={}, rand=job["seed"] * 100 + k, style=style))
        if r.get("error") or r.get("assume_failed") or not r.get("fails"):
            continue
        req = dict(base, env=r["used"], label=r["fails"][0][0])
        rc, out = replay_fresh(req)
        if rc == 1:
            res["violations"].append({"label": r["fails"][0][0], "req": req, "out": out[-1200:],
                                      "how": "witness search (%s) after: %s" % (style, "".join(res["undecided"])[:120]), "detail": ""})
            return


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    out = [f for f in tb if "/allantools/" in f.filename]
    f = (out or tb)[-1]
    return "%s:%s" % (os.path.basename(f.filename), f.lineno)


def confirm(ctx, c, base, res, expl):
    envs = []
    if c.env is not None:
        envs.append(c.env)
    from vt import poly as P
    # other points on the same path
    for k in range(3):
        ctx.seed += 17
        e = ctx.rand_env_on_path(tries=40)
        if e:
            envs.append(e)
    last = ""
    for env in envs[:4]:
        req = dict(base, env={k: v for k, v in env.items() if v is not None}, label=c.label)
        rc, out = replay_fresh(req)
        last = out
        if rc == 1:
            res["violations"].append({"label": c.label, "req": req, "out": out[-1200:], "how": c.how, "detail": c.detail})
            return
    res["unconfirmed"].append("%s [%s] %s || replay: %s" % (c.label, c.how, c.detail, last[-300:]))


def concord(ctx, base, res, expl, pc):
    from vt import poly as P
    env = ctx.rand_env_on_path(tries=20)
    if env is None:
        return
    r = serve(dict(base, env=env))
    if r.get("error"):
        res["mismatch"].append("worker: " + r["error"])
        return
    if r.get("assume_failed"):
        return
    cache = {}
    n = 0
    for lab, v in ctx.values.items():
        if lab not in r["values"]:
            continue
        try:
            if isinstance(v, P.Sym):
                x = P.evalf(v.p, env, cache)
            elif isinstance(v, P.CSym):
                continue
            else:
                x = float(v)
        except (P.EvalError, OverflowError, ZeroDivisionError):
            continue
        y = r["values"][lab]
        n += 1
        if x != x or y != y:
            if (x != x) != (y != y):
                res["mismatch"].append("%s: symbolic %r real %r" % (lab, x, y))
            continue
        if abs(x - y) > 1e-6 * (abs(x) + abs(y)) + 1e-9:
            res["mismatch"].append("%s: symbolic %r real %r" % (lab, x, y))
    if r["fails"]:
        req = dict(base, env=env, label="concordance replay")
        rc, out = replay_fresh(req)
        if rc == 1:
            res["violations"].append({"label": r["fails"][0][0], "req": req, "out": out[-1200:], "how": "replay",
                                      "detail": "real execution violates the property on a concordance input"})
    res["concord"] += 1
    if res["sample"] is None:
        res["sample"] = {"job": res["name"], "env": {k: env[k] for k in list(env)[:6]}, "compared_values": n}


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def fill(j, prop, tier, seed):
    j = dict(j)
    j.setdefault("mod", prop.lower())
    j.setdefault("h", "run")
    j.setdefault("params", {})
    j.setdefault("name", j["h"] + ":" + ",".join("%s=%s" % (k, str(v)[:40]) for k, v in sorted(j["params"].items())))
    j.setdefault("limit", 250 if tier == "quick" else 700)
    j["prop"] = prop
    j["seed"] = seed
    return j


def enough(nviol, t0):
    """confirmed violations are in hand: no need to finish the other jobs"""
    return nviol >= 12 or nviol >= 1 and time.time() - t0 > 150


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None, help="regex on job names")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("vt.props." + a.prop.lower())
    jobs = []
    for j in mod.jobs(a.tier):
        j = fill(j, a.prop, a.tier, seed)
        if a.only and not re.search(a.only, j["name"]):
            continue
        jobs.append(j)
    jobs.sort(key=lambda j: -j.get("cost", 1))
    budget = 780 if a.tier == "quick" else 3000
    results = []
    try:
        from vt import shims
        import vt.symctx        # noqa
        shims.Lifted()          # parse and transform the current source once; workers inherit the code cache
    except BaseException as e:
        print("lifting failed in parent: %r" % (e,))
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(a.j, max(1, len(jobs))), maxtasksperchild=25)
    nviol = 0
    try:
        it = pool.imap_unordered(run_job, jobs)
        for _ in range(len(jobs)):
            left = budget - (time.time() - t0)
            try:
                r = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                break
            results.append(r)
            nviol += len(r["violations"])
            if a.v:
                print("  %-60s %6.2fs paths=%d obl=%d/%d unk=%d q=%d %s%s%s" % (
                    r["name"][:60], r["wall"], r["paths"], r["stats"]["discharged"], r["stats"]["obligations"],
                    len(r["undecided"]), r["stats"]["queries"], "VIOL " if r["violations"] else "",
                    "UNCONF " + str(r["unconfirmed"])[:600] if r["unconfirmed"] else "",
                    ("MISMATCH " + str(r["mismatch"])[:400] if r["mismatch"] else "") + (str(r["undecided"])[:500] if r["undecided"] else "")))
                sys.stdout.flush()
            if enough(nviol, t0):
                break
    finally:
        pool.terminate()
    done = {r["name"] for r in results}
    missing = [j["name"] for j in jobs if j["name"] not in done] if not enough(nviol, t0) else []
    finish(a, mod, seed, t0, jobs, results, missing)


def finish(a, mod, seed, t0, jobs, results, missing):
    prop = a.prop
    S = {}
    for r in results:
        for k, v in r["stats"].items():
            S[k] = S.get(k, 0) + v
    known = known_findings(prop)
    viol, kf = [], []
    for r in results:
        for v in r["violations"]:
            text = r["name"] + " " + v["label"]
            hit = [d for rx, d in known if rx.search(text)]
            (kf if hit else viol).append((r, v, hit))
    undecided = [(r["name"], u) for r in results for u in r["undecided"]] + [(m, "not finished in time") for m in missing]
    unconf = [(r["name"], u) for r in results for u in r["unconfirmed"]]
    mism = [(r["name"], u) for r in results for u in r["mismatch"]]
    vac = [r["name"] for r in results if r["paths"] and not r["reached"]]
    conc = sum(r["concord"] for r in results)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for i, (r, v, _) in enumerate(viol[:8]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(path, "w") as fp:
            json.dump(v["req"], fp, indent=1)
        print("violation in job %s: %s (%s; %s)" % (r["name"], v["label"], v["how"], v["detail"]))
        print("  " + "\n  ".join(v["out"].strip().splitlines()[-4:]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    for d in sorted({d for _, _, h in kf for d in h}):
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    for n, u in undecided[:20]:
        print("INCONCLUSIVE job=%s %s" % (n, u))
    for n, u in unconf[:10]:
        print("UNCONFIRMED counterexample job=%s %s" % (n, u))
    for n, u in mism[:10]:
        print("ENCODING-MISMATCH job=%s %s" % (n, u))
    for n in vac:
        print("VACUOUS job=%s reached no assertion" % n)
    cov = {
        "states": S.get("paths", 0), "transitions": S.get("decisions", 0), "traces_validated_against_impl": conc,
        "samples": [r["sample"] for r in results if r["sample"]][:5] or [{"job": r["name"], "paths": r["paths"]} for r in results[:3]],
        "meaning": "states = symbolic execution paths of the lifted real code, transitions = branch decisions put to the solver, "
                   "traces_validated_against_impl = concrete inputs on which the symbolic result was compared with the real package",
        "jobs": len(jobs), "jobs_finished": len(results), "symbolic_inputs": sum(r["nvars"] for r in results),
        "obligations": S.get("obligations", 0), "discharged": S.get("discharged", 0),
        "discharged_linear_abstraction": S.get("by_abs", 0), "discharged_nonlinear": S.get("by_nra", 0),
        "solver_queries": S.get("queries", 0), "solver_time_s": round(S.get("solver_s", 0), 2),
        "infeasible_paths": S.get("infeasible", 0), "undecided": len(undecided), "unconfirmed": len(unconf),
        "vacuous_jobs": len(vac), "reachability_witnesses": sum(1 for r in results if r["reached"]),
        "functions_encoded": sorted({f for r in results for f in r["funcs"]}),
        "bounds": getattr(mod, "BOUNDS", {}).get(a.tier, getattr(mod, "BOUNDS", {}).get("quick", "")),
        "outside": getattr(mod, "OUTSIDE", ""),
        "notes": sorted({n for r in results for n in r["notes"]}),
    }
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "model_checking", "coverage": cov, "assumptions": COMMON_ASSUME + _aslist(getattr(mod, "ASSUME", [])),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    print("%s %s: %d jobs, %d paths, %d/%d obligations discharged, %d queries, %.1fs solver, %d concordance runs, %.1fs wall" % (
        prop, a.tier, len(results), S.get("paths", 0), S.get("discharged", 0), S.get("obligations", 0), S.get("queries", 0),
        S.get("solver_s", 0), conc, time.time() - t0))
    if lines:
        print("\n".join(lines))
        sys.exit(1)
    bad = {n for n, _ in undecided + unconf + mism} | set(vac)
    # no counterexample.  What was left open is listed above and counted in the evidence; when that is half of the
    # jobs or more, the run did not decide the property and does not claim it
    if not results or 2 * len(bad) >= len(jobs):
        sys.exit(2)
    sys.exit(0)


def _aslist(a):
    return [a] if isinstance(a, str) else list(a)


COMMON_ASSUME = [
    "floating-point arithmetic is modelled by exact real arithmetic; equality of computed and specified values means equal up to a relative 1e-9 of the largest coefficient",
    "numpy/scipy primitives are modelled by their documented semantics (the stand-in is validated on every run by comparing symbolic results with the real package)",
]

if __name__ == "__main__":
    main()
