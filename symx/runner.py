"""
Runs the obligations of one property, replays counterexamples and witnesses on
the untouched package, writes the evidence file and prints the verdict.
"""

import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / "evidence"
REPLAYS = EVIDENCE / "replays"


class Ob:
    """One obligation: a harness function with fixed parameters."""

    def __init__(self, name, fn, params=None, bounds="", wall=100, paths=200000,
                 query_ms=20000, covers=(), int_mode="int", weight=1, expect_known=None,
                 witnesses=2):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.bounds = bounds
        self.wall = wall
        self.paths = paths
        self.query_ms = query_ms
        self.covers = covers
        self.int_mode = int_mode
        self.weight = weight
        self.witnesses = witnesses


def jsonable(v):
    if isinstance(v, bytes):
        return {"__bytes__": v.hex()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {k: jsonable(x) for k, x in v.items()}
    return v


def unjson(v):
    if isinstance(v, dict):
        if set(v) == {"__bytes__"}:
            return bytes.fromhex(v["__bytes__"])
        return {k: unjson(x) for k, x in v.items()}
    if isinstance(v, list):
        return [unjson(x) for x in v]
    return v


def run_symbolic(ob, lab_known=()):
    """Executed in a forked worker."""
    from . import core, values, models
    from .api import SymAPI, ReplayInfeasible

    t0 = time.monotonic()
    limits = core.Limits(wall=ob.wall, paths=ob.paths, query_ms=ob.query_ms)

    def run(path):
        values.reset_caches()
        path.int_mode = ob.int_mode
        api = SymAPI(path)
        try:
            ob.fn(api, **ob.params)
        except ReplayInfeasible:
            raise core.Infeasible()
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{Path(f.filename).name}:{f.lineno}" for f in tb[-6:])
            if type(e).__name__ == "Z3Exception":
                raise core.Unsupported(f"z3: {e} at {where}")
            path.fail(f"unexpected {type(e).__name__}", f"{e!r} at {where}")

    ex = core.Explorer(run, limits)
    ex.max_witness = ob.witnesses
    ex.explore()
    funcs = sorted(models.functions_seen())
    return dict(
        name=ob.name,
        stats=ex.stats.as_dict(),
        cexs=[dict(label=c.label, inputs=jsonable(c.inputs), detail=c.detail) for c in ex.counterexamples],
        witnesses=[jsonable(w) for w in ex.witnesses],
        functions=funcs,
        wall=time.monotonic() - t0,
    )


def _worker(ob, conn):
    try:
        sys.unraisablehook = lambda *a: None
        r = run_symbolic(ob)
    except BaseException as e:
        r = dict(name=ob.name, error=f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def run_all(obs, jobs, budget, confirm=None):
    """
    Run obligations in forked processes; returns results by name.  Once
    confirm(result) says that a counterexample is real, the rest is skipped.
    """
    ctx = mp.get_context("fork")
    todo = sorted(obs, key=lambda o: -o.weight)
    running = {}
    results = {}
    t0 = time.monotonic()
    while todo or running:
        while todo and len(running) < jobs:
            if time.monotonic() - t0 > budget:
                for ob in todo:
                    results[ob.name] = dict(name=ob.name, skipped="time budget of the tier")
                todo = []
                break
            ob = todo.pop(0)
            ob.wall = max(10, min(ob.wall, budget + 60 - (time.monotonic() - t0)))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(ob, b), daemon=True)
            p.start()
            b.close()
            running[ob.name] = (p, a, ob, time.monotonic())
        for name in list(running):
            p, a, ob, st = running[name]
            if a.poll(0):
                try:
                    results[name] = a.recv()
                except EOFError:
                    results[name] = dict(name=name, error="worker died")
                p.join()
                del running[name]
                if confirm and results[name].get("cexs") and confirm(results[name]):
                    for ob in [*todo, *(x[2] for x in running.values())]:
                        results[ob.name] = dict(name=ob.name, skipped="not run: a violation was already reproduced")
                    for x in running.values():
                        x[0].kill()
                        x[0].join()
                    return results
            elif not p.is_alive():
                if not a.poll(0):
                    results[name] = dict(name=name, error=f"worker died (exit {p.exitcode})")
                    del running[name]
            elif time.monotonic() - st > ob.wall + 45:
                p.kill()
                p.join()
                results[name] = dict(name=name, skipped="killed: exceeded its wall budget")
                del running[name]
        time.sleep(0.01)
    return results


def replay_batch(prop, items, timeout=100):
    """items: list of dict(ob=name, inputs=...) -> list of outcome dicts."""
    if not items:
        return []
    env = dict(os.environ, PYTHONHASHSEED="0")
    p = subprocess.Popen(
        [sys.executable, "-B", "-m", "symx.replay", prop],
        cwd=ROOT, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        out, err = p.communicate(json.dumps(items), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return _parse(out, items, "timeout")
    return _parse(out, items, err[-2000:])


def _parse(out, items, err):
    res = []
    for line in out.splitlines():
        if line.startswith("RESULT "):
            res.append(json.loads(line[7:]))
    while len(res) < len(items):
        res.append(dict(status="error", detail=f"replay process ended early: {err}"))
    return res


def load_known():
    f = ROOT / "known_findings.json"
    return json.loads(f.read_text()) if f.exists() else []


def main(prop):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    budget = 500 if tier == "quick" else 700
    import z3
    z3.set_param("smt.random_seed", seed % 1000)
    z3.set_param("sat.random_seed", seed % 1000)

    from . import loader
    try:
        loader.install(symbolic=True)
    except Exception as e:
        print(f"ERROR: the package could not be imported: {type(e).__name__}: {e}")
        traceback.print_exc()
        return 2
    mod = importlib.import_module(f"checks.{prop.lower()}")
    obs = mod.obligations(tier)
    only = os.environ.get("SYMX_ONLY")
    if only:
        obs = [o for o in obs if only in o.name]
    names = [o.name for o in obs]
    assert len(set(names)) == len(names), "duplicate obligation names"
    jobs = int(os.environ.get("SYMX_JOBS", "8"))
    t1 = time.monotonic()
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]

    def confirm(r):
        """Does one of the counterexamples fail on the untouched package?"""
        items = [dict(ob=r["name"], inputs=c["inputs"], label=c["label"]) for c in r["cexs"][:4]]
        return any(out["status"] == "violated"
                   and not any(k["obligation"] == r["name"] and k["label"] == out["label"] for k in known)
                   for out in replay_batch(prop, items, timeout=60))

    results = run_all(obs, jobs, budget, None if os.environ.get("SYMX_ALL") else confirm)
    t2 = time.monotonic()

    violations, known_hits, spurious, errors, inconclusive = [], [], [], [], []
    totals = {}
    witnesses = []
    functions = set()
    covers = {}
    per_ob = []
    by_name = {o.name: o for o in obs}

    replay_items = []
    for name in names:
        r = results[name]
        ob = by_name[name]
        if "error" in r:
            errors.append(f"{name}: {r['error']}")
            per_ob.append(dict(name=name, status="error", detail=r["error"][-300:]))
            continue
        if "skipped" in r:
            inconclusive.append(f"{name}: {r['skipped']}")
            per_ob.append(dict(name=name, status="inconclusive", detail=r["skipped"], bounds=ob.bounds))
            continue
        s = r["stats"]
        for k, v in s.items():
            if isinstance(v, (int, float)):
                totals[k] = totals.get(k, 0) + v
        functions.update(r["functions"])
        for w in r["witnesses"]:
            witnesses.append(dict(ob=name, inputs=w))
        missing = [c for c in ob.covers if c not in s["covers"]]
        status = "discharged"
        if r["cexs"]:
            status = "counterexample"
            for c in r["cexs"]:
                replay_items.append(dict(ob=name, inputs=c["inputs"], label=c["label"], detail=c["detail"]))
        elif s["inconclusive"] or s["paths"] == 0:
            status = "inconclusive"
            inconclusive.append(f"{name}: {s['notes']}")
        elif missing:
            status = "vacuous"
            inconclusive.append(f"{name}: never reached {missing}")
        per_ob.append(dict(name=name, status=status, bounds=ob.bounds, paths=s["paths"],
                           queries=s["queries"], solver_s=s["solver_s"], wall_s=round(r["wall"], 2),
                           checks=s["checks"], covers=s["covers"], notes=s["notes"]))

    REPLAYS.mkdir(parents=True, exist_ok=True)
    outcomes = replay_batch(prop, replay_items)
    for it, out in zip(replay_items, outcomes):
        path = REPLAYS / f"{prop}-{it['ob'].replace('/', '_')}-{len(violations)}.json"
        path.write_text(json.dumps(dict(property=prop, **it, outcome=out), indent=1))
        if out["status"] == "violated":
            kf = [k for k in known if k["obligation"] == it["ob"] and k["label"] == out["label"]]
            if kf:
                known_hits.append((kf[0], it))
            else:
                violations.append((it, out, path))
        elif it["label"].startswith("unexpected "):
            inconclusive.append(f"{it['ob']}: unreproduced {it['label']}: {it['detail']}")
        else:
            spurious.append((it, out))

    # translation validation: models of completed paths, run on the real code
    if violations:
        witnesses = []
    wit = replay_batch(prop, witnesses, timeout=150)
    validated = 0
    samples = []
    for it, out in zip(witnesses, wit):
        if out["status"] == "held":
            validated += 1
            if len(samples) < 5:
                samples.append(dict(obligation=it["ob"], inputs=str(it["inputs"])[:400]))
        elif out["status"] == "violated":
            kf = [k for k in known if k["obligation"] == it["ob"] and k["label"] == out["label"]]
            if not kf:
                path = REPLAYS / f"{prop}-{it['ob'].replace('/', '_')}-w.json"
                path.write_text(json.dumps(dict(property=prop, **it, outcome=out), indent=1))
                violations.append((dict(it, label=out["label"], detail=out.get("detail", "")), out, path))

    discharged = sum(1 for o in per_ob if o["status"] == "discharged")
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=totals.get("paths", 0),
            transitions=totals.get("decisions", 0),
            traces_validated_against_impl=validated,
            traces_submitted=len(witnesses),
            samples=samples,
            obligations=len(obs),
            obligations_discharged=discharged,
            obligations_inconclusive=len(inconclusive),
            assertions_checked=totals.get("checks", 0),
            assertions_discharged=totals.get("discharged", 0),
            solver_queries=totals.get("queries", 0),
            solver_seconds=round(totals.get("solver_s", 0), 2),
            symbolic_hash_calls=totals.get("hash_calls", 0),
            values_concretised=totals.get("concretised", 0),
            functions_encoded=sorted(functions),
            modules_encoded=len(loader.FINDER.loaded),
            per_obligation=per_ob,
            inconclusive=inconclusive,
            known_findings=[k["what"] for k, _ in known_hits],
            outside=getattr(mod, "OUTSIDE", ""),
            import_s=round(t1 - t0, 2), symbolic_s=round(t2 - t1, 2),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        violations=len(violations),
        wall_s=round(time.monotonic() - t0, 2),
    )
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1))

    print(f"{prop} {tier}: {len(obs)} obligations, {discharged} discharged, {len(inconclusive)} inconclusive, "
          f"{totals.get('paths', 0)} paths, {totals.get('queries', 0)} queries, "
          f"{totals.get('solver_s', 0):.1f}s solver, {validated}/{len(witnesses)} traces validated, "
          f"{time.monotonic() - t0:.1f}s wall")
    for i in inconclusive[:40]:
        print(f"INCONCLUSIVE: {i[:400]}")
    for k, it in known_hits:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for it, out in spurious:
        print(f"SPURIOUS: {it['ob']}: {it['label']} did not reproduce: {out} inputs={str(it['inputs'])[:600]}")
    for e in errors:
        print(f"ERROR: {e}")
    for it, out in zip(witnesses, wit):
        if out["status"] == "error":
            print(f"NOTE: witness replay of {it['ob']}: {out.get('detail', '')[:300]}")
    if violations:
        for it, out, path in violations:
            print(f"  {it['ob']}: {out['label']} {out.get('detail', '')[:300]}")
            print(f"  inputs: {str(it['inputs'])[:800]}")
        for it, out, path in violations[:1]:
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if discharged * 2 < len(obs) - len(known_hits):
        print("ERROR: fewer than half of the obligations could be decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
