#!/opt/venv/bin/python
"""check.py <property> [--thorough] [--only NAME] [--list]

Re-derives every obligation of the property from /repo's current source, discharges them with
z3/cvc5, runs the bounded runtime contracts on the real package, writes evidence/<id>.json.
exit 0: held on everything explored; exit 1 + VIOLATION line otherwise; exit 2: machinery error."""
import os

for k, val in {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
               "CUDA_VISIBLE_DEVICES": "", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1"}.items():
    os.environ[k] = val
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
if os.environ.get("_PYVC_HASHSEED") != "1":
    os.environ["_PYVC_HASHSEED"] = "1"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)

import importlib
import json
import multiprocessing as mp
import shutil
import tempfile
import time
import warnings

warnings.simplefilter("ignore")


def _child(fn, args, conn, scratch):
    os.chdir(scratch)
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("PYVC_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    try:
        r = fn(*args)
    except BaseException as e:  # noqa
        import traceback

        r = {"status": "error", "detail": repr(e), "trace": traceback.format_exc()[-2000:]}
    conn.send(r)
    conn.close()
    os._exit(0)


def run_pool(tasks, jobs, hard, scratch):
    """tasks: [(meta, fn, args)] -> results in order; each task in its own forked process"""
    ctx = mp.get_context("fork")
    pending = list(enumerate(tasks))
    live, out = {}, [None] * len(tasks)
    while pending or live:
        while pending and len(live) < jobs:
            i, (meta, fn, args) = pending.pop(0)
            rd, wr = ctx.Pipe(False)
            d = tempfile.mkdtemp(dir=scratch)
            p = ctx.Process(target=_child, args=(fn, args, wr, d))
            p.start()
            wr.close()
            live[i] = (p, rd, time.time(), meta)
        done = []
        for i, (p, rd, t0, meta) in live.items():
            if rd.poll(0):
                try:
                    out[i] = rd.recv()
                except EOFError:
                    out[i] = {"status": "crash", "detail": "worker died"}
                done.append(i)
            elif not p.is_alive():
                out[i] = {"status": "crash", "detail": f"worker exit code {p.exitcode}"}
                done.append(i)
            elif time.time() - t0 > hard:
                p.kill()
                out[i] = {"status": "timeout", "detail": "hard wall limit"}
                done.append(i)
        for i in done:
            p, rd, t0, meta = live.pop(i)
            p.join(5)
            for k, v in meta.items():
                out[i].setdefault(k, v)
        if not done:
            time.sleep(0.01)
    return out


def known_findings():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                f = line[len("finding:"):].strip()
                kv = dict(x.split("=", 1) for x in f.split(" ")[:2])
                out.setdefault(kv["property"], {})[kv["key"]] = " ".join(f.split(" ")[2:])
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    only = [a.split("=", 1)[1] for a in sys.argv if a.startswith("--only=")]
    prop = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from pyvc import loader, verify

    import bayes_optim  # the real package

    warnings.simplefilter("ignore")
    shadow_error = None
    try:
        loader.load("")
        for m in ("acquisition.optim.mies", "acquisition.optim.one_plus_one_cma_es", "multi_objective.analytic", "mobo", "extension"):
            try:
                loader.load(m)
            except ImportError:
                pass
    except BaseException as e:  # noqa: the rewritten source could not be loaded
        shadow_error = repr(e)
    warnings.simplefilter("ignore")
    importlib.import_module(f"contracts.{prop}")
    try:
        os.remove(os.path.join(HERE, "evidence", f"replay-{prop}.json"))
    except OSError:
        pass
    known = known_findings().get(prop, {})
    verify.KNOWN.update(known)
    proofs = [p for p in verify.PROOFS if p.prop == prop and (thorough or not p.thorough)]
    bnds = [b for b in verify.BOUNDED if b.prop == prop]
    if only:
        proofs = [p for p in proofs if p.name in only]
        bnds = [b for b in bnds if b.name in only]
    scratch = tempfile.mkdtemp(prefix="pyvc-")
    try:
        tasks = []
        for b in bnds:
            tasks.append(({"name": b.name, "prop": prop, "kind": "bounded", "targets": b.targets}, verify.run_bounded, (b, seed, thorough)))
        for p in proofs:
            if shadow_error:
                continue
            tasks.append(({"name": p.name, "prop": prop, "kind": "proof", "targets": p.targets}, verify.run_proof, (p, 400 if thorough else 150)))
        res = run_pool(tasks, int(os.environ.get("PYVC_JOBS", "8")), 700, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if shadow_error:
        for p in proofs:
            res.append({"name": p.name, "kind": "proof", "targets": p.targets, "status": "unsupported", "detail": shadow_error})
    code = report(prop, res, thorough, seed, time.time() - t0, known, only)
    sys.stdout.flush()
    os._exit(code)


def report(prop, res, thorough, seed, wall, known, only):
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    P = [r for r in res if r["kind"] == "proof"]
    Bd = [r for r in res if r["kind"] == "bounded"]
    obs = [o for r in P for o in r.get("obligations", [])]
    backends = {}
    for o in obs:
        if o["status"] == "proved":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    bad_p = [r for r in P if r["status"] in ("failed", "unknown")]
    lost = [r for r in P if r["status"] in ("unsupported", "timeout", "crash", "error")]
    bad_b = [r for r in Bd if r["status"] == "violated"]
    err_b = [r for r in Bd if r["status"] in ("error", "crash", "timeout")]
    kf = {}
    for r in Bd:
        for k, w in (r.get("known") or {}).items():
            kf[k] = w
    cov = {
        "obligations": len(obs) + sum(1 for r in lost if not r.get("obligations")),
        "discharged": sum(o["status"] == "proved" for o in obs),
        "checker_cmd": f"/opt/venv/bin/python /verif/check.py {prop}" + (" --thorough" if thorough else ""),
        "trusted_base": TRUSTED,
        "back_ends": backends,
        "solver_s": round(sum(r.get("solver_s", 0) for r in P), 2),
        "functions_under_contract": sorted({t for r in P if r["status"] == "proved" for t in r["targets"]}),
        "functions_bounded_only": sorted({t for r in Bd for t in r["targets"]} - {t for r in P if r["status"] == "proved" for t in r["targets"]}),
        "proofs": [{k: r.get(k) for k in ("name", "targets", "status", "paths", "vacuity", "wall", "solver_s", "detail", "failed_obligation")
                    if r.get(k) is not None} | {"obligations": len(r.get("obligations", []))} for r in P],
        "bounded_checks": [{k: r.get(k) for k in ("name", "targets", "status", "bound", "cases", "wall", "what", "note") if r.get(k) is not None} for r in Bd],
        "evaluations": sum(r.get("cases", 0) for r in Bd),
        "obligation_names": sorted({o["name"] for o in obs}),
    }
    assumptions = sorted({a for r in P for a in r.get("assumptions", [])}) + [
        f"not proved on this tree (bounded stand-in only): {r['name']}: {r['status']} {r.get('detail', '')}"[:300] for r in lost
    ]
    viol = bool(bad_p or bad_b)
    if not only:
        json.dump(
            {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "proof" if P else "exploration",
             "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(bad_p) + len(bad_b)},
            open(os.path.join(ev, f"{prop}.json"), "w"), indent=1,
        )
    for r in P:
        print(f"  proof   {r['name']:<40} {r['status']:<11} obligations={len(r.get('obligations', []))} paths={r.get('paths')} "
              f"vac={r.get('vacuity')} {r.get('wall')}s {r.get('detail', '') or ''} {r.get('failed_obligation', '') or ''}")
    for r in Bd:
        print(f"  bounded {r['name']:<40} {r['status']:<11} cases={r.get('cases')} {r.get('wall')}s {r.get('what', '') or ''} {r.get('detail', '') or ''}")
    for k, w in kf.items():
        print(f"KNOWN-FINDING: property={prop} {k}: {w}")
    for r in lost:
        print(f"NOTE: {r['name']} not within the verifier's reach on this tree ({r['status']}); decided by the bounded stand-in only")
    if viol:
        path = os.path.join(ev, f"replay-{prop}.json")
        json.dump({"property": prop, "seed": seed, "tier": "thorough" if thorough else "quick",
                   "failed_proofs": bad_p, "failing_inputs": bad_b}, open(path, "w"), indent=1, default=str)
        concrete = bool(bad_b) or any(r.get("replayed") for r in bad_p)
        print(f"VIOLATION property={prop} replay={path}" + ("" if concrete else " no-failing-input-found"))
        return 1
    if err_b:
        for r in err_b:
            print("ERROR in bounded check", r["name"], r.get("detail"), r.get("what"), r.get("trace"))
        return 2
    return 0


TRUSTED = [
    "pyvc symbolic semantics of Python/NumPy (pyvc/*.py), cross-checked on concrete inputs by selftest.py",
    "z3 4.x / cvc5 1.1.2",
    "floats are mathematical reals in proofs (rounding, overflow and NaN propagation are covered by the bounded runtime contracts only)",
    "numpy/scipy functions follow the contracts given in pyvc/symnp.py",
]

if __name__ == "__main__":
    main()
