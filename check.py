#!/opt/veriftools/pyvenv/bin/python
"""Decide one property by symbolic execution of /repo's current source.

usage: check.py <PROPERTY-ID> [--tier quick|thorough] [--job NAME] [-v]
"""

from __future__ import annotations

import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, *sys.argv])

import argparse
import contextvars
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import queue
import random
import shutil
import subprocess
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO_SRC = os.environ.get("SYMEX_REPO_SRC", "/repo/src")
VENV_PY = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"
sys.path.insert(0, HERE)
# generators left over from finished paths may complain while being collected
sys.unraisablehook = lambda *_: None

from symex import engine as eng  # noqa: E402
from symex.ctx import SymCtx  # noqa: E402

REPLAY_DIR = os.path.join(HERE, "replay")
KNOWN = os.path.join(HERE, "known_findings.json")

COVERED: set[str] = set()


def load_code(prop: str):
    """Patch the math module, import the real code and the harness module."""
    eng.patch_math()
    sys.path.insert(0, REPO_SRC)
    sys.path.append(SITE)
    import upstage_des

    where = os.path.realpath(os.path.dirname(upstage_des.__file__))
    if where != os.path.realpath(os.path.join(REPO_SRC, "upstage_des")):
        raise RuntimeError(f"wrong upstage_des imported: {where}")
    import pkgutil

    for m in pkgutil.walk_packages(upstage_des.__path__, "upstage_des."):
        if ".test" not in m.name:
            importlib.import_module(m.name)
    mod = importlib.import_module("harness." + prop.lower())
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] in ("upstage_des", "simpy") and m is not None:
            if "float" not in m.__dict__:
                m.__dict__["float"] = eng.FloatShim
    return mod


def start_coverage() -> None:
    mon = sys.monitoring
    mon.use_tool_id(mon.PROFILER_ID, "symex")
    src = os.path.realpath(REPO_SRC)

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(src) or "/simpy/" in fn:
            rel = fn[len(src) + 1:] if fn.startswith(src) else "simpy/" + os.path.basename(fn)
            if not code.co_name.startswith("<"):
                COVERED.add(f"{rel}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, on_start)
    mon.set_events(mon.PROFILER_ID, mon.events.PY_START)


def open_known(prop: str) -> dict[str, str]:
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {f["id"]: f["what"] for f in d.get("findings", [])
            if f["property"] == prop and f.get("status") == "open"}


def replay(prop: str, fn: str, params: dict, inputs: dict, label: str, detail: str):
    """Write the replay file and run it on the unpatched code."""
    os.makedirs(REPLAY_DIR, exist_ok=True)
    body = {"property": prop, "fn": fn, "params": params, "inputs": inputs, "label": label,
            "detail": detail,
            "how": f"cd /verif && {VENV_PY} symex/concrete.py one <this file>   (exit 1 = reproduces)"}
    h = hashlib.sha1(json.dumps([prop, fn, params, inputs, label], sort_keys=True,
                                default=str).encode()).hexdigest()[:10]
    path = os.path.join(REPLAY_DIR, f"{prop}-{h}.json")
    json.dump(body, open(path, "w"), indent=1, default=str)
    try:
        p = subprocess.run([VENV_PY, os.path.join(HERE, "symex", "concrete.py"), "one", path],
                           capture_output=True, text=True, timeout=90,
                           env={**os.environ, "PYTHONHASHSEED": "0",
                                "PYTHONDONTWRITEBYTECODE": "1"})
        txt = p.stdout.strip().splitlines()
        out = json.loads(txt[-1]) if txt else {"status": "error", "detail": p.stderr[-500:]}
    except subprocess.TimeoutExpired:
        out = {"status": "hang", "detail": "replay did not end"}
    body["replayed"] = out
    json.dump(body, open(path, "w"), indent=1, default=str)
    return path, out


def run_job(prop: str, mod, job: dict, tier: str, seed: int, verbose: bool) -> dict:
    E = eng.Engine(query_ms=job.get("query_ms", 10000), path_s=job.get("path_s", 90.0))
    known = open_known(prop)
    res = {"job": job["name"], "violation": None, "unconfirmed": [], "known": [], "errors": [],
           "reached": {}, "samples": []}
    t0 = time.time()
    fn = getattr(mod, job["fn"])
    params = job.get("params", {})
    tried: dict[str, int] = {}
    rnd = random.Random(f"{seed}-{job['name']}")
    n_samples = job.get("samples", 2)
    known_seen: set[str] = set()

    def on_candidate(ctx, neg, label, kind):
        if kind == "unknown":
            res["errors"].append(f"solver answered unknown at '{label}'")
            return
        if kind.startswith("known:"):
            kf = kind[6:]
            if kf in known_seen:
                return
            inputs = ctx.nice_model(neg)
            if inputs is None:
                res["errors"].append(f"no model for known finding {kf}")
                return
            path, out = replay(prop, job["fn"], params, inputs, label, kind)
            if out["status"] in ("failed", "exception", "hang"):
                known_seen.add(kf)
                res["known"].append((kf, path))
            return
        if tried.get(label, 0) >= 6:
            return
        tried[label] = tried.get(label, 0) + 1
        inputs = ctx.nice_model(neg)
        if inputs is None:
            res["errors"].append(f"no model for a satisfiable query at '{label}'")
            return
        path, out = replay(prop, job["fn"], params, inputs, label, "")
        if out["status"] in ("failed", "exception", "hang"):
            res["violation"] = {"label": label, "path": path, "out": out["status"],
                                "detail": out["detail"], "inputs": inputs}
            E.stop(eng.ViolationFound())
        # try once more with another model
        inputs2 = ctx.nice_model(neg, random.Random(tried[label]))
        if inputs2 and inputs2 != inputs:
            path, out = replay(prop, job["fn"], params, inputs2, label, "")
            if out["status"] in ("failed", "exception", "hang"):
                res["violation"] = {"label": label, "path": path, "out": out["status"],
                                    "detail": out["detail"], "inputs": inputs2}
                E.stop(eng.ViolationFound())
        res["unconfirmed"].append({"label": label, "inputs": inputs, "replay": out})

    npath = 0
    max_paths = job.get("max_paths", 200000)
    while True:
        ctx = SymCtx(E, on_candidate, set(known))

        def body():
            contextvars.copy_context().run(fn, ctx, **params)

        exc = E.run_path(body)
        E.active = False
        npath += 1
        if isinstance(exc, eng.PathInfeasible):
            E.stats.infeasible += 1
        elif isinstance(exc, eng.ViolationFound):
            break
        elif isinstance(exc, eng.EngineError):
            res["errors"].append(f"engine: {exc}" + (_tb(exc) if verbose else ""))
            break
        elif isinstance(exc, eng.PathTimeout):
            E.active, E.abort = True, None
            try:
                ctx.candidate(eng.z3.BoolVal(True), "the code does not terminate")
            except eng.ViolationFound:
                break
            finally:
                E.active = False
            if not res["unconfirmed"]:
                res["errors"].append("path time limit")
            break
        elif exc is not None:
            lab = f"unexpected {type(exc).__name__}: {str(exc)[:200]}"
            if verbose:
                print(_tb(exc))
            E.active, E.abort = True, None
            nk = len(res["known"]) + len(known_seen)
            try:
                r, _ = E.query(eng.z3.BoolVal(True))
                ctx.candidate(eng.z3.BoolVal(True), lab)
            except eng.ViolationFound:
                break
            finally:
                E.active = False
        else:
            E.stats.paths += 1
            for k, v in ctx.reached.items():
                res["reached"][k] = res["reached"].get(k, 0) + v
            # reservoir of path models for concrete validation
            k = E.stats.paths
            if len(res["samples"]) < n_samples or rnd.random() < n_samples / k:
                E.active = True
                try:
                    inputs = ctx.nice_model(eng.z3.BoolVal(True), rnd)
                except eng.SymexStop:
                    inputs = None
                E.active = False
                if inputs is not None:
                    obs = []
                    for kind, name, v in ctx.log:
                        obs.append([kind, name, _concrete(ctx, v) if kind == "obs" else None])
                    item = {"fn": job["fn"], "params": params, "inputs": inputs, "log": obs,
                            "job": job["name"]}
                    if len(res["samples"]) < n_samples:
                        res["samples"].append(item)
                    else:
                        res["samples"][rnd.randrange(n_samples)] = item
        del ctx, body
        if npath % 200 == 0:
            gc.collect()
        if npath >= max_paths:
            res["errors"].append(f"path budget {max_paths} exhausted")
            break
        if not E.backtrack():
            break
    res["stats"] = E.stats.as_dict()
    res["wall"] = time.time() - t0
    return res


def _concrete(ctx, v):
    if isinstance(v, (list, tuple)):
        return [_concrete(ctx, x) for x in v]
    if isinstance(v, eng.SymReal):
        from symex.ctx import _frac
        f = _frac(ctx.last_model.eval(v.e, model_completion=True))
        return f.numerator / f.denominator
    if isinstance(v, eng.SymBool):
        return eng.z3.is_true(ctx.last_model.eval(v.e, model_completion=True))
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return float(v)
    return repr(v)


def _tb(exc):
    return "\n" + "".join(traceback.format_exception(exc)[-8:])


def worker(prop, jobs, tier, seed, inq, outq, verbose):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    mod = sys.modules["harness." + prop.lower()]
    sys.setrecursionlimit(20000)
    start_coverage()
    gc.disable()
    while True:
        try:
            i = inq.get(timeout=5)
        except queue.Empty:
            break
        if i is None:
            break
        try:
            r = run_job(prop, mod, jobs[i], tier, seed, verbose)
        except BaseException as e:  # noqa: BLE001
            r = {"job": jobs[i]["name"], "violation": None, "unconfirmed": [], "known": [],
                 "errors": [f"worker: {type(e).__name__}: {e}{_tb(e)}"], "reached": {},
                 "samples": [], "stats": eng.Stats().as_dict(), "wall": 0}
        r["covered"] = sorted(COVERED)
        outq.put((i, r))
        gc.collect()


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))
    return a == b


def validate(prop, samples):
    """Run sampled path models on the unpatched code and compare the traces."""
    if not samples:
        return 0, []
    d = tempfile.mkdtemp(prefix="symex-")
    try:
        fin, fout = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        json.dump({"property": prop, "items": samples}, open(fin, "w"), default=str)
        subprocess.run([VENV_PY, os.path.join(HERE, "symex", "concrete.py"), "batch", fin, fout],
                       capture_output=True, timeout=300,
                       env={**os.environ, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"})
        outs = json.load(open(fout))
    except Exception as e:  # noqa: BLE001
        return 0, [f"validation run failed: {e}"]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ok, bad = 0, []
    for s, o in zip(samples, outs):
        want = [list(x) for x in s["log"]]
        got = [list(x) for x in o["log"]]
        if o["status"] == "ok" and same(want, got):
            ok += 1
        else:
            diff = next((f"{w} vs {g}" for w, g in zip(want, got) if not same(w, g)),
                        f"lengths {len(want)} {len(got)}")
            bad.append(f"{s['job']}: {o['status']} {o['detail']}: {diff}; inputs {s['inputs']}")
    return ok, bad


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job", default=None)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SYMEX_WORKERS", "0")) or
                    min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop.upper(), a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = 840.0 if tier == "quick" else 6 * 3600.0
    mod = load_code(prop)
    jobs = mod.jobs(tier)
    if a.job:
        jobs = [j for j in jobs if a.job in j["name"]]
    if len({j["name"] for j in jobs}) != len(jobs):
        print("duplicate job names")
        return 2
    ctxm = mp.get_context("fork")
    inq, outq = ctxm.Queue(), ctxm.Queue()
    nw = max(1, min(a.workers, len(jobs)))
    for i in range(len(jobs)):
        inq.put(i)
    for _ in range(nw):
        inq.put(None)
    procs = [ctxm.Process(target=worker, args=(prop, jobs, tier, seed, inq, outq, a.v), daemon=True)
             for _ in range(nw)]
    for p in procs:
        p.start()
    results: dict[int, dict] = {}
    errors: list[str] = []
    violation = None
    while len(results) < len(jobs):
        try:
            i, r = outq.get(timeout=2)
        except queue.Empty:
            if time.time() - t0 > budget:
                left = [jobs[i]["name"] for i in range(len(jobs)) if i not in results]
                errors.append("time budget exhausted; unfinished jobs: " + ", ".join(left))
                break
            if not any(p.is_alive() for p in procs):
                try:
                    i, r = outq.get(timeout=1)
                except queue.Empty:
                    errors.append("workers ended early")
                    break
            else:
                continue
        results[i] = r
        if a.v or a.job:
            print(f"  {r['job']}: paths={r['stats']['paths']} queries={r['stats']['queries']} "
                  f"checks={r['stats']['checks']} solver={r['stats']['solver_s']:.1f}s "
                  f"wall={r['wall']:.1f}s unk={r['stats']['unknown_branch']}", flush=True)
        if r["violation"]:
            violation = r
            break
    for p in procs:
        p.terminate()
    for p in procs:
        p.join(5)

    tot: dict[str, float] = {}
    reached: dict[str, int] = {}
    covered: set[str] = set()
    samples, known, unconfirmed = [], [], []
    for i in sorted(results):
        r = results[i]
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_depth" else tot.get(k, 0) + v
        for k, v in r["reached"].items():
            reached[k] = reached.get(k, 0) + v
        covered.update(r.get("covered", []))
        samples += r["samples"]
        known += [(kf, p, r["job"]) for kf, p in r["known"]]
        unconfirmed += r["unconfirmed"]
        errors += [f"{r['job']}: {e}" for e in r["errors"]]
    if violation is None and not a.job:
        missing = [x for x in getattr(mod, "REACH", []) if not reached.get(x)]
        if missing:
            errors.append("vacuity: never reached " + ", ".join(missing))
        if not tot.get("checks"):
            errors.append("vacuity: no assertion was evaluated")
    if unconfirmed:
        errors.append(f"{len(unconfirmed)} counterexample(s) did not reproduce: "
                      + json.dumps(unconfirmed[:2])[:800])
    ok, bad = (0, [])
    if violation is None and samples:
        rnd = random.Random(seed)
        if len(samples) > 60:
            samples = rnd.sample(samples, 60)
        ok, bad = validate(prop, samples)
        if a.v:
            for b in bad:
                print("  diverged:", b)
    wall = time.time() - t0
    kf_all = open_known(prop)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("decisions", 0)),
            "transitions": int(tot.get("forks", 0) * 2 + tot.get("implied", 0)),
            "traces_validated_against_impl": ok,
            "traces_diverged": len(bad),
            "diverged_samples": bad[:3],
            "samples": [{"job": s["job"], "inputs": s["inputs"], "trace": s["log"][:12]}
                        for s in samples[:4]] or ["none"],
            "paths": int(tot.get("paths", 0)),
            "infeasible_paths": int(tot.get("infeasible", 0)),
            "forks": int(tot.get("forks", 0)),
            "max_symbolic_depth": int(tot.get("max_depth", 0)),
            "solver_queries": int(tot.get("queries", 0)),
            "solver_seconds": round(tot.get("solver_s", 0.0), 2),
            "assertions_discharged": int(tot.get("checks", 0)),
            "undecided_branches_explored_both_ways": int(tot.get("unknown_branch", 0)),
            "jobs": len(jobs), "jobs_finished": len(results),
            "bounds": getattr(mod, "BOUNDS", ""),
            "functions_encoded": sorted(c for c in covered if not c.startswith("simpy/")),
            "reach_labels": reached,
            "known_findings_seen": sorted({k for k, _, _ in known}),
            "exhaustive": not errors and violation is None,
        },
        "assumptions": ["floats are modelled as exact reals; inputs range over reals in the "
                        "stated intervals"] + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.job:
        json.dump(evidence, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1,
                  default=str)
    print(f"{prop} tier={tier} jobs={len(results)}/{len(jobs)} paths={int(tot.get('paths', 0))} "
          f"checks={int(tot.get('checks', 0))} queries={int(tot.get('queries', 0))} "
          f"solver={tot.get('solver_s', 0):.1f}s validated={ok}/{ok + len(bad)} wall={wall:.1f}s")
    for kf in sorted({k for k, _, _ in known}):
        print(f"KNOWN-FINDING: property={prop} {kf} {kf_all.get(kf, '')}")
    if violation:
        v = violation["violation"]
        print(f"job {violation['job']}: {v['label']}: {v['out']} {v['detail']}")
        print(f"VIOLATION property={prop} replay={v['path']}")
        return 1
    if errors:
        for e in errors[:20]:
            print("ERROR:", e)
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
