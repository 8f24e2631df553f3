#!/opt/venv/bin/python
"""check.py Cxx [--tier quick|thorough] | check.py --replay FILE

Decides one property: (1) the deductive engine (dv/) discharges the proof obligations of the
contracts of the property on the current source of /repo, (2) the runtime oracles (rt/) check the
postconditions on generated inputs of the real code (bounded stand-in and replay).
"""
import argparse
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SKM_REPO", "/repo")
PY = "/opt/venv/bin/python"


def env():
    e = dict(os.environ)
    e.update(
        PYTHONPATH=REPO, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0",
        PYTHONWARNINGS="ignore", SKM_REPO=REPO,
    )
    e.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "mplconfig_skm"))
    return e


def known_findings(pid):
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"open: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def spawn(script, arg, tmp, name):
    out = os.path.join(tmp, name + ".json")
    arg = dict(arg, out=out)
    log = open(os.path.join(tmp, name + ".log"), "w")
    p = subprocess.Popen(
        [PY, os.path.join(HERE, script), json.dumps(arg)], stdout=log, stderr=log, cwd=tmp, env=env(), start_new_session=True
    )
    return {"p": p, "out": out, "log": log.name, "name": name}


def collect(job, t_end):
    try:
        job["p"].wait(max(t_end - time.time(), 1))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(job["p"].pid, signal.SIGKILL)
        except OSError:
            pass
        job["p"].wait()
    try:
        with open(job["out"]) as f:
            return json.load(f)
    except (OSError, ValueError):
        tail = open(job["log"]).read()[-2000:]
        return {"error": f"no result (exit {job['p'].returncode}): {tail}", "in_repo": False, "results": []}


def do_replay(path):
    with open(path) as f:
        r = json.load(f)
    with tempfile.TemporaryDirectory() as tmp:
        if r["kind"] == "case":
            job = spawn("rt/worker.py", {"pid": r["property"], "replay": r["case"]}, tmp, "replay")
            res = collect(job, time.time() + 600)
            print(json.dumps(res.get("replay", res), indent=1))
            return 1 if res.get("replay", {}).get("status") == "fail" else 0
        if r["kind"] == "obligation":
            job = spawn("dv/run.py", {"pid": r["property"], "tier": "quick", "seed": 1, "budget": 500, "only": r["obligation"]}, tmp, "replay")
            res = collect(job, time.time() + 600)
            bad = [o for o in res.get("obligations", []) if o["name"] == r["obligation"] and o["status"] == "FAILED"]
            print(json.dumps(bad or res, indent=1)[:6000])
            return 1 if bad else 0
    print(json.dumps(r, indent=1))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-rt", action="store_true")
    ap.add_argument("--no-dv", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    pid, tier = a.pid, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    n = 6 if tier == "quick" else 7
    budget = 150 if tier == "quick" else 2400
    hard = t0 + (budget * 2 + 120 if tier == "quick" else budget + 900)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    with tempfile.TemporaryDirectory() as tmp:
        jobs = []
        dv = None
        if not a.no_dv and os.path.exists(os.path.join(HERE, "dv", "run.py")):
            dv = spawn("dv/run.py", {"pid": pid, "tier": tier, "seed": seed, "budget": 540 if tier == "quick" else 1500, "par": 4}, tmp, "dv")
        if not a.no_rt:
            for k in range(n):
                jobs.append(spawn("rt/worker.py", {"pid": pid, "tier": tier, "seed": seed, "budget": budget, "k": k, "n": n}, tmp, f"w{k}"))
        rts = [collect(j, hard) for j in jobs]
        dvr = collect(dv, max(hard, t0 + 600)) if dv else {"obligations": []}
    return conclude(pid, tier, seed, t0, rts, dvr)


def write_replay(pid, k, data):
    path = os.path.join(HERE, "replays", f"{pid}_{k}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def conclude(pid, tier, seed, t0, rts, dvr):
    known = known_findings(pid)
    agg, problems = {}, []
    viol = []  # (kind, data)
    for r in rts:
        if r.get("error"):
            problems.append(r["error"][:600])
            if r.get("in_repo"):
                viol.append(("import", {"property": pid, "kind": "import", "message": r["error"], "traceback": r.get("traceback")}))
        for o in r.get("results", []):
            g = agg.setdefault(o["oracle"], {"oracle": o["oracle"], "planned": o["planned"], "ok": 0, "known": 0, "skip": 0, "harness": 0, "fail": 0, "cpu_s": 0.0, "notes": []})
            for k in ("ok", "known", "skip", "harness"):
                g[k] += o[k]
            g["fail"] += len(o["fail"])
            g["cpu_s"] = round(g["cpu_s"] + o["time"], 2)
            g["notes"] = (g["notes"] + o["msgs"])[:3]
            for f in o["fail"]:
                viol.append(("case", {"property": pid, "kind": "case", "case": {"oracle": o["oracle"], "seed": f["seed"], "case": f["case"]}, "message": f["message"]}))
            for m in o["msgs"]:
                if m.startswith("known: "):
                    kid = m[7:].strip()
                    if kid not in known:
                        viol.append(("case", {"property": pid, "kind": "case", "case": {"oracle": o["oracle"], "seed": seed, "case": -1}, "message": f"unlisted finding {kid}"}))
    reproduced = sorted({m[7:].strip() for r in rts for o in r.get("results", []) for m in o["msgs"] if m.startswith("known: ")} & set(known))
    obs = dvr.get("obligations", [])
    failed = [o for o in obs if o["status"] == "FAILED"]
    undecided = [o for o in obs if o["status"] not in ("PROVED", "FAILED", "BOUNDED")]
    have_case = any(k == "case" for k, _ in viol)
    if dvr.get("error"):
        problems.append("deductive engine: " + str(dvr["error"])[:800])
    lines, code = [], 0
    by_oracle = set()
    k = 0
    for kind, data in viol:
        key = data.get("case", {}).get("oracle", kind)
        if key in by_oracle:
            continue
        by_oracle.add(key)
        if failed:
            data["failed_obligations"] = [o["name"] for o in failed]
        path = write_replay(pid, k, data)
        k += 1
        print(f"{data['message']}")
        lines.append(f"VIOLATION property={pid} replay={path}")
    if failed:
        for o in failed:
            print(f"obligation failed: {o['name']}: {o.get('detail', '')[:600]}")
        if not viol:
            rep = [o for o in failed if o.get("replay")]
            o = rep[0] if rep else failed[0]
            path = write_replay(pid, k, {"property": pid, "kind": "obligation", "obligation": o["name"], "function": o.get("function"), "verifier_output": o.get("detail"), "counterexample": o.get("replay"), "all_failed": [(x["name"], x.get("detail")) for x in failed]})
            lines.append(f"VIOLATION property={pid} replay={path}" + ("" if rep else " no-failing-input-found"))
    for o in undecided:
        print(f"undecided obligation: {o['name']}: {o['status']} {o.get('detail', '')[:300]}")
    for p in problems:
        print("note:", p[:800])
    for kid in reproduced:
        print(f"KNOWN-FINDING: property={pid} {kid}: {known[kid]}")
    for line in lines:
        print(line)
        code = 1
    evaluations = sum(g["ok"] + g["known"] + g["fail"] for g in agg.values())
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "proof" if obs else "exploration",
        "coverage": {
            "obligations": len(obs),
            "discharged": sum(o["status"] == "PROVED" for o in obs),
            "undecided": [o["name"] for o in undecided],
            "failed": [o["name"] for o in failed],
            "functions_under_contract": dvr.get("functions", []),
            "obligation_list": [
                {k: o.get(k) for k in ("name", "function", "status", "backend", "time")} for o in obs
            ],
            "back_ends": dvr.get("backends", {}),
            "solver_time_s": dvr.get("solver_time", 0),
            "engine_time_s": dvr.get("time", 0),
            "checker_cmd": f"{PY} check.py {pid} --tier {tier} (dv/run.py: symbolic execution of /repo's current source; ring normal form, z3, cvc5)",
            "trusted_base": dvr.get("trusted", []),
            "source_hashes": dvr.get("sources", {}),
            "vacuity": dvr.get("vacuity", {}),
            "bounded": sorted(agg.values(), key=lambda g: g["oracle"]),
            "bounded_note": "the oracles listed under 'bounded' run the real code on generated inputs (bounded stand-in and replay); they are never counted as proved",
            "evaluations": evaluations,
            "distinct_nontrivial": sum(g["ok"] for g in agg.values()),
            "rule": "one case = one generated model/data/params input accepted by the precondition and checked against an independent reference of the postcondition; skipped cases are not counted; every case has its own seed",
            "samples": [f"{g['oracle']}: {g['ok']} ok of {g['planned']} planned" for g in agg.values()] + [o["name"] for o in obs[:10]],
            "explanation": "contract-based deductive verification; see DESIGN.md",
            "problems": problems,
            "known_findings": reproduced,
        },
        "assumptions": dvr.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(lines),
    }
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{pid} {tier}: {ev['coverage']['discharged']}/{len(obs)} obligations discharged, "
        f"{evaluations} bounded cases, {len(lines)} violations, {ev['wall_s']} s"
    )
    return code


if __name__ == "__main__":
    sys.exit(main())
