"""Runtime side of the contracts: generators + independent oracles run on the real code.

Every oracle checks the postcondition of a property on generated inputs.  It is used
(1) to replay a failed proof obligation on the real code and (2) as the bounded stand-in
for functions outside the reach of the deductive engine.
"""
import inspect
import os
import sys
import time
import traceback
import warnings
import zlib

warnings.simplefilter("ignore")

import numpy as np


class Skip(Exception):
    """the case is outside the precondition (or a private helper no longer exists)"""


ORACLES = {}


class Known(Exception):
    """a violation that is listed in the known findings file"""


def oracle(pid, quick, thorough=None, name=None):
    def deco(f):
        ORACLES.setdefault(pid, []).append(
            (name or f.__name__, f, quick, thorough or quick * 12)
        )
        return f

    return deco


def rng_for(pid, name, seed, i):
    return np.random.default_rng([zlib.crc32(f"{pid}:{name}".encode()), int(seed), int(i)])


def priv(module, name):
    """a (possibly private) function of the real code; Skip if it is gone"""
    import importlib

    m = importlib.import_module("skillmodels." + module)
    f = getattr(m, name, None)
    if f is None:
        raise Skip(f"{module}.{name} does not exist")
    return f


def call(f, *args, **kwargs):
    """call a private helper; a changed signature is not a violation"""
    try:
        inspect.signature(f).bind(*args, **kwargs)
    except TypeError as e:
        raise Skip(f"signature of {getattr(f, '__name__', f)} changed: {e}")
    return f(*args, **kwargs)


def run_case(pid, name, fn, seed, i):
    """returns (status, message)"""
    rng = rng_for(pid, name, seed, i)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            fn(rng)
            return "ok", ""
        except Skip as e:
            return "skip", str(e)
        except Known as e:
            return "known", str(e)
        except AssertionError as e:
            return "fail", f"{e}" or traceback.format_exc(limit=-3)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = any("/skillmodels/" in fr.filename and "/verif/" not in fr.filename for fr in tb)
            msg = f"{type(e).__name__}: {e} @ " + " <- ".join(
                f"{os.path.basename(fr.filename)}:{fr.lineno}" for fr in reversed(tb[-4:])
            )
            if inrepo:
                return "fail", "unexpected exception on a valid input: " + msg
            return "harness", msg


def run_oracles(pid, tier, seed, budget, only=None, shard=(0, 1), max_fail=3):
    out = []
    t_end = time.time() + budget
    todo = [o for o in ORACLES.get(pid, []) if only is None or o[0] in only]
    share = {}
    for k, (name, fn, q, th) in enumerate(todo):
        n = q if tier == "quick" else th
        r = {"oracle": name, "planned": n, "ok": 0, "known": 0, "skip": 0, "harness": 0, "fail": [], "time": 0.0, "msgs": []}
        t0 = time.time()
        left = t_end - t0
        sub_end = t0 + max(left / (len(todo) - k), 1.0)
        # cheap oracles run further cases while time is left (quick tier)
        more_end = t0 + 20.0 / len(todo)
        for i in range(shard[0], 10 * n if tier == "quick" else n, shard[1]):
            if time.time() > sub_end or (i >= n and time.time() > more_end):
                break
            st, msg = run_case(pid, name, fn, seed, i)
            if st == "fail":
                r["fail"].append({"seed": int(seed), "case": i, "message": msg[:1500]})
                if len(r["fail"]) >= max_fail:
                    break
            else:
                r[st] += 1
                if st != "ok" and len(r["msgs"]) < 3:
                    r["msgs"].append(f"{st}: {msg[:300]}")
        r["time"] = time.time() - t0
        out.append(r)
        if r["fail"] and tier == "quick" and max_fail <= 1:
            break
    return out


def close(a, b, msg, rtol=1e-7, atol=1e-9, equal_nan=True):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise AssertionError(f"{msg}: shapes {a.shape} != {b.shape}")
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    if not ok.all():
        idx = tuple(int(x[0]) for x in np.where(~ok)) if a.ndim else ()
        raise AssertionError(
            f"{msg}: at {idx} got {a[idx]!r}, expected {b[idx]!r} ({int((~ok).sum())} of {ok.size} differ)"
        )


def same(a, b, msg):
    if not (type(a) is type(b) or (isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)))) or a != b:
        if a != b:
            raise AssertionError(f"{msg}: got {a!r}, expected {b!r}")


def check(cond, msg):
    if not cond:
        raise AssertionError(msg)
