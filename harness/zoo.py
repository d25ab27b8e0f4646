"""A collection of fitted models with hand-written column layouts (shared by C09, C13 and C16)."""

import warnings

import numpy as np
import pandas as pd


def frame(seed, n=200, held=40):
    """Predictors, a linear signal and rows without response (whose predictors are complete)."""
    rng = np.random.default_rng(seed)
    d = pd.DataFrame({
        "x": np.round(rng.uniform(-1, 2, n), 4),
        "z": np.round(rng.uniform(0, 1, n), 4),
        "w": np.round(rng.normal(size=n), 4),
        "g": rng.choice(["b", "c", "a"], n),
        "s": rng.choice(["s3", "s1", "s4", "s2"], n),
    })
    # every level and the whole range occur among rows that have a response
    d.loc[:3, "s"] = ["s1", "s2", "s3", "s4"]
    d.loc[:2, "g"] = ["a", "b", "c"]
    d.loc[0, ["x", "z"]] = [-1, 0]
    d.loc[1, ["x", "z"]] = [2, 1]
    eta = (np.sin(2 * d["x"]) + 0.8 * (d["g"] == "b") - 0.5 * (d["g"] == "c") + 0.6 * d["z"] ** 2
           + 0.3 * d["w"] + d["s"].map({"s1": 0.3, "s2": -0.3, "s3": 0.1, "s4": 0}))
    d["eta"] = eta.to_numpy(float)
    out = np.zeros(n, bool)
    out[rng.choice(np.arange(4, n), held, replace=False)] = True
    return d, out, rng


def _mask(d, out, *cols):
    for c in cols:
        d[c] = d[c].astype(float)
        d.loc[out, c] = np.nan
    return d


def terms(kind):
    """Terms of a formula and their columns, in the order they enter the matrix: [(term, cols)]."""
    from mssm.models import f, fs, i, l, li, ri, rs

    return {
        "mix": lambda: ([ri("s"), f(["x"], nk=6), l(["g"]), i(), l(["w"])],
                        [(2, 2), (3, 1), (4, 1), (1, 6), (0, 4)]),
        "by": lambda: ([i(), l(["g"]), f(["x"], by="g", nk=5), f(["z"], nk=4)],
                       [(0, 1), (1, 2), (2, 15), (3, 4)]),
        "te": lambda: ([i(), f(["x"], nk=5), f(["z"], nk=4), f(["x", "z"], nk=[3, 3])],
                       [(0, 1), (1, 5), (2, 4), (3, 9)]),
        "fs": lambda: ([i(), f(["x"], nk=5), fs(["x"], rf="s", nk=4), rs(["w", "g"])],
                       [(0, 1), (1, 5), (2, 20), (3, 3)]),
        "inter": lambda: ([i(), *li(["g", "w"]), f(["z"], nk=4, penalize_null=True)],
                          [(0, 1), (1, 2), (2, 1), (3, 2), (4, 4)]),
        "small": lambda: ([i(), f(["z"], nk=4)], [(0, 1), (1, 4)]),
        "lin": lambda: ([i(), l(["w"]), l(["g"])], [(0, 1), (1, 1), (2, 2)]),
        "one": lambda: ([i()], [(0, 1)]),
        "cox": lambda: ([l(["w"]), f(["x"], nk=5), ri("g")], [(0, 1), (1, 5), (2, 3)]),
        "lostlin": lambda: ([i(), l(["w"]), l(["w2"]), l(["g"])], [(0, 1), (1, 1), (2, 1), (3, 2)]),
        "shared": lambda: ([i(), f(["x"], nk=6, id=1), f(["z"], nk=6, id=1), f(["w"], nk=5)],
                           [(0, 1), (1, 6), (2, 6), (3, 5)]),
        "ids": lambda: ([i(), f(["x"], nk=5, id=1), f(["z"], nk=6, id=2), f(["w"], nk=6, id=2)],
                        [(0, 1), (1, 5), (2, 6), (3, 6)]),
        "lost": lambda: ([i(), l(["w"]), l(["w2"]), f(["x"], nk=5)],
                         [(0, 1), (1, 1), (2, 1), (3, 5)]),
    }[kind]()


def formulas(d, spec, series=None):
    from mssm.models import Formula, lhs

    F, L = [], []
    for y, kind in spec:
        t, lay = terms(kind)
        F.append(Formula(lhs(y), t, d, print_warn=False, series_id=series))
        L.append(lay)
    return F, L


class Entry:
    def __init__(self, model, d, out, layout, extra, kw):
        self.model, self.d, self.out, self.layout, self.extra, self.kw = model, d, out, layout, extra, kw

    def fit(self, **more):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.model.fit(**{"progress_bar": False, "n_cores": 1, **self.kw, **more})
        return self


def gamm(kind, family, link=None, n=200):
    def make(seed):
        from mssm.models import GAMM
        from mssm.src.python import exp_fam as E

        d, out, rng = frame(seed, n)
        eta = d["eta"].to_numpy()
        if family == "Gaussian":
            fam, y = E.Gaussian(), eta + 0.5 * rng.normal(size=n)
        elif family == "GaussianLog":
            fam, y = E.Gaussian(link=E.LOG()), np.exp(0.4 * eta) + 0.2 * rng.normal(size=n)
        elif family == "Binomial":
            fam, y = E.Binomial(), (rng.uniform(size=n) < 1 / (1 + np.exp(-eta))).astype(float)
        elif family == "BinomialN":
            k = rng.integers(1, 6, n)
            y = rng.binomial(k, 1 / (1 + np.exp(-eta))) / k
            fam = E.Binomial(n=k[~out].reshape(-1, 1))
        elif family == "GaussianFixed":
            fam, y = E.Gaussian(scale=0.3), eta + 0.5 * rng.normal(size=n)
        elif family == "GammaFixed":
            fam, y = E.Gamma(scale=0.3), rng.gamma(4, np.exp(0.5 * eta) / 4)
        elif family == "GammaId":
            fam, y = E.Gamma(link=E.Identity()), rng.gamma(6, (8 + eta) / 6)
        elif family == "Poisson":
            fam, y = E.Poisson(), rng.poisson(np.exp(0.5 * eta + 0.7)).astype(float)
        elif family == "Gamma":
            fam, y = E.Gamma(), rng.gamma(4, np.exp(0.5 * eta) / 4)
        elif family == "InvGauss":
            fam, y = E.InvGauss(), rng.wald(np.exp(0.4 * eta), 6.0)
        elif family == "ScaledT":
            fam, y = E.ScaledT(), eta + 0.5 * rng.standard_t(4, size=n)
        d["y"] = y
        d["w2"] = 2 * d["w"] - 1
        _mask(d, out, "y")
        F, L = formulas(d, [("y", kind)])
        return Entry(GAMM(F[0], fam), d, out, L, 0, {})
    return make


def gammlss(kinds, family, n=250):
    def make(seed):
        from mssm.models import GAMMLSS
        from mssm.src.python import exp_fam as E

        d, out, rng = frame(seed, n)
        eta = d["eta"].to_numpy()
        if family == "GAUMLSS":
            fam = E.GAUMLSS([E.Identity(), E.LOGb(-0.01)])
            y = eta + np.exp(-0.7 + 0.6 * d["z"].to_numpy()) * rng.normal(size=n)
        elif family == "GAMMALS":
            fam = E.GAMMALS([E.LOG(), E.LOGb(-0.01)])
            sh = np.exp(1.2 - 0.5 * d["z"].to_numpy())
            y = rng.gamma(sh, np.exp(0.5 * eta) / sh)
        elif family == "MULNOMLSS":
            k = len(kinds)
            fam = E.MULNOMLSS(k)
            p = np.stack([np.exp(0.7 * eta), np.exp(0.5 * d["z"].to_numpy()), np.ones(n)][-(k + 1):], 1)
            p /= p.sum(1, keepdims=True)
            y = np.array([rng.choice(k + 1, p=q) for q in p]).astype(float)
        d["y"] = y
        d["w2"] = 2 * d["w"] - 1
        _mask(d, out, "y")
        F, L = formulas(d, [("y", k) for k in kinds])
        return Entry(GAMMLSS(F, fam), d, out, L, 0, {})
    return make


def multigauss(kinds, n=220):
    def make(seed):
        from mssm.models import GSMM
        from mssm.src.python import exp_fam as E

        d, out, rng = frame(seed, n)
        C = np.linalg.cholesky(np.array([[0.3, 0.12], [0.12, 0.25]]))
        e = rng.normal(size=(n, 2)) @ C.T
        d["y0"] = d["eta"] + e[:, 0]
        d["y1"] = 0.5 * d["z"] - 0.4 * d["w"] + e[:, 1]
        _mask(d, out, "y0", "y1")
        F, L = formulas(d, [(f"y{k}", kind) for k, kind in enumerate(kinds)])
        return Entry(GSMM(F, E.MultiGauss(2, [E.Identity(), E.Identity()])), d, out, L, 3,
                     {"method": "qEFS", "max_inner": 500})
    return make


def prophaz(method="QR/Chol", n=200):
    def make(seed):
        from mssm.models import GSMM
        from mssm.src.python import exp_fam as E

        d, out, rng = frame(seed, n, 0)
        t = rng.exponential(1 / np.exp(0.6 * d["eta"].to_numpy()))
        c = rng.exponential(2.0, n)
        d["delta"] = (t <= c).astype(int)
        d["y"] = np.round(np.minimum(t, c), 2) + 0.01
        d = d.sort_values("y", ascending=False).reset_index(drop=True)
        F, L = formulas(d, [("y", "cox")])
        ut, r = np.unique(d["y"].to_numpy(), return_inverse=True)
        ut = np.flip(ut)
        r = np.abs(r - (len(ut) - 1))
        fam = E.PropHaz(ut, r)
        from mssm.models import Formula, lhs

        t, lay = terms("cox")
        F = Formula(lhs("delta"), t, d, print_warn=False)
        kw = {} if method == "QR/Chol" else {"method": method}
        return Entry(GSMM([F], fam), d, out, [lay], 0, kw)
    return make


ZOO = {
    "gauss_mix": gamm("mix", "Gaussian"),
    "gauss_by": gamm("by", "Gaussian"),
    "gauss_te": gamm("te", "Gaussian"),
    "gauss_fs": gamm("fs", "Gaussian"),
    "gauss_inter": gamm("inter", "Gaussian"),
    "gauss_lin": gamm("lin", "Gaussian"),
    "gauss_lost": gamm("lost", "Gaussian"),
    "gausslog": gamm("small", "GaussianLog"),
    "binom_mix": gamm("mix", "Binomial"),
    "poisson_by": gamm("by", "Poisson"),
    "gamma_mix": gamm("mix", "Gamma"),
    "invgauss": gamm("small", "InvGauss"),
    "scaledt": gamm("small", "ScaledT"),
    "gaumlss": gammlss(["mix", "small"], "GAUMLSS"),
    "gaumlss_lin": gammlss(["lin", "one"], "GAUMLSS"),
    "gammals": gammlss(["inter", "small"], "GAMMALS"),
    "mulnom": gammlss(["small", "lin"], "MULNOMLSS"),
    "multigauss": multigauss(["small", "lin"]),
    "multigauss2": multigauss(["inter", "small"]),
    "prophaz": prophaz(),
    "prophaz_q": prophaz("qEFS"),
}

# models that only matter for estimation
MORE = {
    "gauss_lostlin": gamm("lostlin", "Gaussian"),
    "gauss_shared": gamm("shared", "Gaussian"),
    "gauss_ids": gamm("ids", "Gaussian"),
    "poisson_ids": gamm("ids", "Poisson"),
    "gaumlss_ids": gammlss(["ids", "small"], "GAUMLSS"),
    "gaussfix_te": gamm("te", "GaussianFixed"),
    "binomn_small": gamm("small", "BinomialN"),
    "binom_lin": gamm("lin", "Binomial"),
    "poisson_lost": gamm("lost", "Poisson"),
    "poisson_te": gamm("te", "Poisson"),
    "gamma_lin": gamm("lin", "Gamma"),
    "gamma_lost": gamm("lost", "Gamma"),
    "gamma_lostlin": gamm("lostlin", "Gamma"),
    "gamma_shared": gamm("shared", "Gamma"),
    "gammafix_small": gamm("small", "GammaFixed"),
    "gammaid_small": gamm("small", "GammaId"),
    "invgauss_lin": gamm("lin", "InvGauss"),
    "scaledt_mix": gamm("mix", "ScaledT"),
    "gaumlss_by": gammlss(["by", "lin"], "GAUMLSS"),
    "gaumlss_lost": gammlss(["lost", "small"], "GAUMLSS"),
    "gaumlss_shared": gammlss(["shared", "small"], "GAUMLSS"),
    "gammals_mix": gammlss(["mix", "one"], "GAMMALS"),
    "mulnom_mix": gammlss(["mix", "small"], "MULNOMLSS"),
}
ALL = {**ZOO, **MORE}
