"""Independent reference implementation of the model in plain numpy (from the property texts)."""
import numpy as np

from . import gen


def transition_value(kind, names, pars, x, allf, own=None):
    """x: dict factor->state; pars: dict name->value"""
    v = np.array([x[f] for f in allf], dtype=float)
    p = pars
    if kind in ("linear",):
        return sum(p[f] * x[f] for f in allf) + p["constant"]
    if kind in ("translog", "robust_translog"):
        if kind == "robust_translog":
            x = {f: min(max(x[f], -1e12), 1e12) for f in allf}
        r = sum(p[f] * x[f] for f in allf) + sum(p[f"{f} ** 2"] * x[f] ** 2 for f in allf) + p["constant"]
        for i, f in enumerate(allf):
            for g in allf[i + 1 :]:
                r += p[f"{f} * {g}"] * x[f] * x[g]
        return r
    if kind == "linear_and_squares":
        return sum(p[f] * x[f] for f in allf) + sum(p[f"{f} ** 2"] * x[f] ** 2 for f in allf) + p["constant"]
    if kind == "log_ces":
        phi = p["phi"]
        return np.log(sum(p[f] * np.exp(phi * x[f]) for f in allf)) / phi
    if kind == "log_ces_general":
        return p["tfp"] * np.log(sum(p[f] * np.exp(p[f"sigma_{f}"] * x[f]) for f in allf))
    if kind == "constant":
        return x[own]
    raise KeyError(kind)


class Ref:
    def __init__(self, model, params):
        """params: DataFrame indexed by labels (any order)"""
        self.model = model
        self.d = gen.dims(model)
        self.P = {tuple(k): float(v) for k, v in zip(params.index, params["value"])}
        self.ups = gen.updates(model)
        self.outcomes = model.get("anchoring", {}).get("outcomes", {})
        self.ignore_const = model.get("anchoring", {}).get("ignore_constant_when_anchoring", False)
        self.opts = model.get("estimation_options", {})

    def loading_vec(self, u):
        t, v, fs, _ = u
        return np.array([self.P[("loadings", t, v, f)] if f in fs else 0.0 for f in self.d["latent"]])

    def control_vec(self, u):
        t, v, _, _ = u
        return np.array([self.P[("controls", t, v, c)] for c in self.d["controls"]])

    def meas_sd(self, u):
        return self.P[("meas_sds", u[0], u[1], "-")]

    def shock_sds(self, t):
        return np.array([self.P[("shock_sds", t, f, "-")] for f in self.d["latent"]])

    def init_mean(self, m):
        return np.array([self.P[("initial_states", 0, f"mixture_{m}", f)] for f in self.d["latent"]])

    def init_upper(self, m):
        lat = self.d["latent"]
        L = np.zeros((len(lat), len(lat)))
        for i, f in enumerate(lat):
            for j, g in enumerate(lat[: i + 1]):
                L[i, j] = self.P[("initial_cholcovs", 0, f"mixture_{m}", f"{f}-{g}")]
        return L.T

    def weights(self):
        return np.array([self.P[("mixture_weights", 0, f"mixture_{m}", "-")] for m in range(self.d["n_mixtures"])])

    def anchor_scale(self, t):
        return np.array(
            [self.P[("loadings", t, f"{self.outcomes[f]}_{f}", f)] if f in self.outcomes else 1.0 for f in self.d["latent"]]
        )

    def anchor_const(self, t):
        if self.ignore_const:
            return np.zeros(len(self.d["latent"]))
        return np.array(
            [self.P[("controls", t, f"{self.outcomes[f]}_{f}", "constant")] if f in self.outcomes else 0.0 for f in self.d["latent"]]
        )

    def trans_pars(self, t, f):
        return {n: self.P[("transition", t, f, n)] for n in gen.transition_names(self.model, f)}

    def raw_transition(self, t, full):
        """full: vector of all factors (latent then observed) -> latent vector"""
        x = dict(zip(self.d["all"], full))
        out = []
        for f in self.d["latent"]:
            spec = self.model["factors"][f]["transition_function"]
            pars = self.trans_pars(t, f)
            if callable(spec):
                out.append(spec.__ref__(x, np.asarray(full), pars))
            else:
                out.append(transition_value(spec, None, pars, x, self.d["all"], own=f))
        return np.array(out, dtype=float)

    def transition(self, t, latent, observed):
        a = self.anchor_scale(t) * latent + self.anchor_const(t)
        y = self.raw_transition(t, np.concatenate([a, observed]))
        return (y - self.anchor_const(t + 1)) / self.anchor_scale(t + 1)

    # ------------------------------------------------------------------ filter
    def filter_individual(self, meas, controls, observed, kappa=None):
        """meas: list per update; controls[t], observed[t]: vectors.  Returns dict of lists."""
        d = self.d
        nlat, nmix = len(d["latent"]), d["n_mixtures"]
        kappa = self.opts.get("sigma_points_scale", 2) if kappa is None else kappa
        x = [self.init_mean(m) for m in range(nmix)]
        P = [self.init_upper(m).T @ self.init_upper(m) for m in range(nmix)]
        lw = np.log(self.weights())
        res = {"loglikes": [], "states": [], "lw": [], "residuals": [], "sds": []}
        for k, u in enumerate(self.ups):
            t = u[0]
            y = meas[k]
            if np.isfinite(y):
                h, c, sd = self.loading_vec(u), self.control_vec(u), self.meas_sd(u)
                ld, nx, nP, rr, ss = [], [], [], [], []
                for m in range(nmix):
                    r = y - (h @ x[m] + c @ controls[t])
                    s = h @ P[m] @ h + sd**2
                    K = P[m] @ h / s
                    nx.append(x[m] + K * r)
                    nP.append(P[m] - np.outer(K, h @ P[m]))
                    ld.append(-0.5 * np.log(2 * np.pi * s) - 0.5 * r**2 / s)
                    rr.append(r)
                    ss.append(np.sqrt(s))
                ld = np.array(ld)
                if nmix == 1:
                    ll = ld[0]
                else:
                    a = lw + ld
                    mx = a.max()
                    ll = mx + np.log(np.exp(a - mx).sum())
                    lw = a - ll
                if u[3] == "measurement":
                    x, P = nx, nP
                res["loglikes"].append(ll)
                res["residuals"].append(rr)
                res["sds"].append(ss)
            else:
                res["loglikes"].append(0.0)
                res["residuals"].append([np.nan] * nmix)
                res["sds"].append([np.nan] * nmix)
            res["states"].append(np.array(x).copy())
            res["lw"].append(lw.copy())
            if k + 1 < len(self.ups) and self.ups[k + 1][0] != t:
                nx, nP = [], []
                for m in range(nmix):
                    nn, cc = self.predict(t, x[m], P[m], observed[t], kappa)
                    nx.append(nn)
                    nP.append(cc)
                x, P = nx, nP
        return res

    def predict(self, t, x, P, obs, kappa):
        n = len(x)
        L = np.linalg.cholesky(P)
        s = np.sqrt(kappa + n)
        pts = [x] + [x + s * L[:, j] for j in range(n)] + [x - s * L[:, j] for j in range(n)]
        w = np.array([kappa] + [0.5] * (2 * n)) / (n + kappa)
        tr = np.array([self.transition(t, p, obs) for p in pts])
        mean = w @ tr
        dev = tr - mean
        return mean, (dev * w[:, None]).T @ dev + np.diag(self.shock_sds(t) ** 2)


def soft_clip(x, lower, upper, hl=1, hu=1):
    x = np.asarray(x, dtype=float)
    if lower is not None:
        x = np.logaddexp(hl * x, hl * lower) / hl
    if upper is not None:
        x = -np.logaddexp(-hu * x, -hu * upper) / hu
    return x


class RefData:
    """value of a variable for (individual number, model period) from a long data set"""

    def __init__(self, df, model):
        d = gen.dims(model)
        ids = sorted(set(df.index.get_level_values(0)))
        pers = sorted(set(df.index.get_level_values(1)))
        self.ids, self.pers = ids, pers
        cols = list(df.columns)
        self.rows = {}
        for (i, t), row in zip(df.index, df.to_numpy()):
            self.rows[(ids.index(i), pers.index(t))] = dict(zip(cols, row))
        self.model, self.d = model, d
        self.outcomes = model.get("anchoring", {}).get("outcomes", {})
        self.ups = gen.updates(model)
        # rows wiped because of missing controls
        self.wiped = set()
        for (i, t), row in self.rows.items():
            if t >= d["n_periods"]:
                continue
            if any(np.isnan(row[c]) for c in d["controls"][1:]):
                ms = [self.raw(i, u) for u in self.ups if u[0] == t]
                if any(not np.isnan(m) for m in ms):
                    self.wiped.add((i, t))

    def var(self, u):
        if u[3] == "anchoring":
            return self.outcomes[u[2][0]]
        return u[1]

    def raw(self, i, u):
        row = self.rows.get((i, u[0]))
        return np.nan if row is None else float(row[self.var(u)])

    def measurement(self, i, u):
        return np.nan if (i, u[0]) in self.wiped else self.raw(i, u)

    def controls(self, i, t):
        row = self.rows.get((i, t))
        if row is None:
            return np.array([1.0] + [np.nan] * (len(self.d["controls"]) - 1))
        if (i, t) in self.wiped:
            return np.full(len(self.d["controls"]), np.nan)
        return np.array([1.0] + [float(row[c]) for c in self.d["controls"][1:]])

    def observed(self, i, t):
        row = self.rows[(i, t)] if self.d["observed"] else {}
        return np.array([float(row[o]) for o in self.d["observed"]])
