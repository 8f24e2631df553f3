"""Discharge the proof obligations of one property on the current source of the repository.

usage: run.py '{"pid":..., "tier":..., "seed":..., "budget":..., "out":..., "only":...}'
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)

MODULES = ["c_filter", "c_trans", "c_params", "c_likelihood", "c_spec", "c_model", "c_data", "c_debug", "c_reduce", "c_sim", "c_corr", "c_plots", "c_bounds"]


def all_units(pid):
    out, errors = [], []
    for m in MODULES:
        if not os.path.exists(os.path.join(HERE, m + ".py")):
            continue
        try:
            mod = importlib.import_module("dv." + m)
        except Exception:
            errors.append(f"dv.{m}: {traceback.format_exc()[-1500:]}")
            continue
        for name, f in mod.UNITS.get(pid, []):
            out.append((m, name, f))
    return out, errors


def child(conn, pid, mod, name, f, budget, tier):
    import resource

    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except (ValueError, OSError):
        pass
    from dv import smt
    from dv.unit import Unit

    u = Unit(pid, name, budget)
    u.tier = tier
    u.guard(f)
    second = u.second_opinion() if tier == "thorough" else None
    conn.send(
        dict(
            name=name,
            module=mod,
            obligations=[
                dict(
                    name=f"{name}: {o.name}", function=name, status=status(u, o),
                    backend="+".join(sorted(o.backend)), time=round(o.time, 3), detail=o.detail, replay=o.replay, parts=o.parts,
                )
                for o in u.obls.values()
            ],
            executed=sorted(u.executed),
            stubs=sorted(u.stubs),
            notes=u.notes,
            vacuous=u.vacuous,
            stats=dict(smt.STATS),
            time=round(u.time, 2),
            second=second,
        )
    )
    conn.close()


def status(u, o):
    if o.status == "PROVED" and any(o.name.startswith(b) for b in u.bounded_names):
        return "BOUNDED"
    return o.status or "UNDECIDED"


def run_units(units, pid, tier, budget, par):
    ctx = mp.get_context("fork")
    results, running, queue = [], [], list(units)
    per = min(budget, 300 if tier == "quick" else 900)
    t_end = time.time() + budget
    while queue or running:
        while queue and len(running) < par:
            m, name, f = queue.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=child, args=(b, pid, m, name, f, per, tier))
            p.start()
            b.close()
            running.append((p, a, m, name, time.time()))
        for r in list(running):
            p, a, m, name, t0 = r
            got = None
            try:
                if a.poll(0.02):
                    got = a.recv()
            except (EOFError, OSError):
                got = dict(error=f"unit {name} ended without a result (exit {p.exitcode})")
            if got is None and not p.is_alive() and not a.poll(0):
                got = dict(error=f"unit {name} ended without a result (exit {p.exitcode})")
            if got is None and (time.time() - t0 > per or time.time() > t_end):
                p.kill()
                got = dict(error=f"unit {name}: time limit")
            if got is not None:
                if "error" in got:
                    got = dict(
                        name=name, module=m, executed=[], stubs=[], notes=[], vacuous=False, stats={}, time=time.time() - t0, second=None,
                        obligations=[dict(name=f"{name}: contract", function=name, status="UNDECIDED", backend="", time=time.time() - t0, detail=got["error"], replay=None, parts=0)],
                    )
                results.append(got)
                p.join(1)
                if p.is_alive():
                    p.kill()
                running.remove(r)
        time.sleep(0.01)
    return results


ENGINE_TRUST = [
    "dv/interp.py, dv/lib.py: the symbolic semantics given to Python, numpy, jax and pandas operations (assumed contracts of the libraries)",
    "dv/nf.py, dv/prove.py: ring normal form with sums over symbolic ranges",
    "z3 4.x (python bindings); cvc5 as second opinion in the thorough tier",
]
ASSUMPTIONS = [
    "machine arithmetic is treated as exact real arithmetic (floats) and mathematical integers",
    "NaN is tracked separately; infinities are treated as NaN inputs (isfinite) and do not arise from finite inputs",
    "jax/numpy/pandas/dags functions satisfy the contracts stated in dv/lib.py (QR: Q orthonormal, R upper triangular, R'R = A'A)",
    "labels (factor, measurement, control names) are pairwise distinct strings; f-string labels of different shape are distinct",
]


def main():
    arg = json.loads(sys.argv[1])
    t0 = time.time()
    pid, tier = arg["pid"], arg.get("tier", "quick")
    out = dict(obligations=[], functions=[], backends={}, solver_time=0.0, trusted=ENGINE_TRUST, assumptions=ASSUMPTIONS, sources={}, vacuity={})
    try:
        units, errors = all_units(pid)
        if arg.get("only"):
            units = [u for u in units if arg["only"].startswith(u[1] + ":")]
        res = run_units(units, pid, tier, arg.get("budget", 300), arg.get("par", 3))
        res.sort(key=lambda r: [u[1] for u in units].index(r["name"]))
        execd, stubs = {}, set()
        for r in res:
            out["obligations"] += r["obligations"]
            out["functions"].append(dict(unit=r["name"], executed_source=r["executed"], by_contract=r["stubs"], time=r["time"], notes=r["notes"], second_opinion=r["second"]))
            out["vacuity"][r["name"]] = "preconditions contradictory" if r["vacuous"] else "preconditions satisfiable (z3)"
            if r["vacuous"]:
                for o in r["obligations"]:
                    if o["status"] == "PROVED":
                        o["status"] = "VACUOUS"
            for k, v in r["stats"].items():
                out["backends"][k] = round(out["backends"].get(k, 0) + v, 3)
            for q in r["executed"]:
                execd[q.rsplit(".", 1)[0] if q.count(".") else q] = 1
        out["solver_time"] = round(out["backends"].get("z3_time", 0) + out["backends"].get("cvc5_time", 0), 3)
        from dv.interp import REPO

        for q in sorted({x for r in res for x in r["executed"]}):
            m = ".".join(q.split(".")[:2])
            path = os.path.join(REPO, *m.split(".")) + ".py"
            if os.path.exists(path):
                out["sources"][m] = hashlib.sha256(open(path, "rb").read()).hexdigest()[:16]
        if errors:
            out["error"] = "; ".join(errors)
    except Exception:
        out["error"] = traceback.format_exc()[-2000:]
    out["time"] = round(time.time() - t0, 2)
    tmp = arg["out"] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(out, f, default=str)
    os.replace(tmp, arg["out"])


if __name__ == "__main__":
    main()
