"""Small deterministic models, parameters and data for the demonstrations."""
import warnings

import numpy as np
import pandas as pd

warnings.filterwarnings("ignore")

import jax.numpy as jnp  # noqa: E402
from jax import config  # noqa: E402

config.update("jax_enable_x64", True)

from skillmodels.params_index import get_params_index  # noqa: E402
from skillmodels.process_model import process_model  # noqa: E402


def model(n_periods=3, factors=("a", "b"), n_mixtures=1, trans="linear", **extra):
    spec = {"factors": {}, "estimation_options": {"n_mixtures": n_mixtures}}
    for f in factors:
        spec["factors"][f] = {
            "measurements": [[f"{f}1", f"{f}2"] for _ in range(n_periods)],
            "transition_function": trans,
        }
    spec.update(extra)
    return spec


def index_of(spec):
    m = process_model(spec)
    return get_params_index(m["update_info"], m["labels"], m["dimensions"], m["transition_info"])


def params(spec, seed=0):
    idx = index_of(spec)
    rng = np.random.default_rng(seed)
    out = pd.DataFrame({"value": rng.uniform(0.3, 1.2, len(idx))}, index=idx)
    nmix = spec.get("estimation_options", {}).get("n_mixtures", 1)
    w = np.linspace(1, 2, nmix)
    out.loc["mixture_weights", "value"] = w / w.sum()
    return out


def data(spec, n_obs=6, seed=1, extra=()):
    m = process_model(spec)
    rng = np.random.default_rng(seed)
    n_periods = m["dimensions"]["n_periods"]
    cols = []
    for (_, v), purpose in m["update_info"]["purpose"].items():
        if purpose == "measurement" and v not in cols:
            cols.append(v)
    cols += [c for c in m["labels"]["controls"] if c != "constant" and c not in cols]
    cols += [c for c in m["labels"]["observed_factors"] if c not in cols]
    cols += [c for c in m["anchoring"]["outcomes"].values() if c not in cols]
    cols += [c for c in extra if c not in cols]
    ind = pd.MultiIndex.from_product([range(n_obs), range(n_periods)], names=["caseid", "period"])
    return pd.DataFrame(rng.normal(size=(len(ind), len(cols))), index=ind, columns=cols)
