"""worker process: runs one shard of the oracles of a property and writes a json result"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def load(pid):
    import importlib

    n = int(pid[1:])
    mod = "o_filter" if n <= 8 else "o_spec" if n <= 14 else "o_data" if n <= 21 else "o_plots"
    importlib.import_module("rt." + mod)


def main():
    a = json.loads(sys.argv[1])
    from rt import core

    res = {"results": [], "error": None}
    try:
        load(a["pid"])
        if a.get("replay"):
            r = a["replay"]
            fn = [o for o in core.ORACLES[a["pid"]] if o[0] == r["oracle"]][0][1]
            st, msg = core.run_case(a["pid"], r["oracle"], fn, r["seed"], r["case"])
            res["replay"] = {"status": st, "message": msg}
        else:
            res["results"] = core.run_oracles(
                a["pid"], a["tier"], a["seed"], a["budget"], a.get("only"), (a["k"], a["n"]), a.get("max_fail", 2)
            )
    except BaseException as e:
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        # an import of the package that fails is a violation of everything; anything else is the harness
        res["error"] = f"{type(e).__name__}: {e}"
        res["in_repo"] = any("/skillmodels/" in f.filename for f in tb)
        res["traceback"] = traceback.format_exc(limit=-6)
    tmp = a["out"] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f, default=str)
    os.replace(tmp, a["out"])
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
