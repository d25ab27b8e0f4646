"""C17: comparison of models and correction for estimated smoothing parameters (spec/Compare.tla)."""

import contextlib
import copy
import warnings

import numpy as np
import scipy as scp

from . import fit_oracle as fo
from . import zoo
from .c08_data import Bad, need
from .c13_fit import kind, near
from .common import deadline, pmap, tla

INV1 = ["Turned", "Reflexive", "NoNonsense", "Between", "AicOwn"]
INV2 = ["Workers", "Only"]
MODS = [dict(free=3, half=2, none=1, llk=-40, est=True), dict(free=2, half=1, none=0, llk=-43, est=True),
        dict(free=2, half=2, none=2, llk=-39, est=False), dict(free=4, half=0, none=2, llk=-41, est=True),
        dict(free=1, half=4, none=0, llk=-40, est=False)]
ROWS = 60


# --------------------------------------------------------------------------- comparison
def stand_ins():
    """Fitted models of every kind of family whose numbers are replaced by those of the specification."""
    import pandas as pd
    from mssm.models import GAMM, GAMMLSS, Formula, f, i, lhs
    from mssm.src.python import exp_fam as E

    rng = np.random.default_rng(3)
    d = pd.DataFrame({"x": rng.uniform(size=ROWS)})
    d["y"] = np.exp(0.3 * np.sin(6 * d.x)) + 0.1 * rng.uniform(size=ROWS)
    d["n"] = rng.poisson(3, ROWS).astype(float)
    out = {}

    def put(k, m, **kw):
        with contextlib.redirect_stdout(None):
            m.fit(progress_bar=False, **kw)
        out[k] = m

    F = lambda y: Formula(lhs(y), [i(), f(["x"], nk=5)], d, print_warn=False)  # noqa: E731
    put("two", GAMM(F("y"), E.Gaussian()))
    put("one", GAMM(F("n"), E.Poisson()))
    put("ext", GAMM(F("y"), E.ScaledT()))
    put("par", GAMMLSS([F("y"), Formula(lhs("y"), [i()], d, print_warn=False)], E.GAUMLSS([E.Identity(), E.LOG()])))
    return out


def dressed(base, kind_, spec):
    m = copy.deepcopy(base)
    n = spec["free"] + spec["half"] + spec["none"]
    share = np.r_[np.ones(spec["free"]), np.full(spec["half"], 0.5), np.zeros(spec["none"])]
    # rotate so that products of matrices matter
    Q = scp.stats.ortho_group.rvs(n, random_state=n) if n > 1 else np.eye(1)
    phi = 0.7 if kind_ == "two" else 1.0
    # V^-1 = D, -hessian * phi = D^1/2 Q share Q' D^1/2
    D = np.linspace(1, 2, n)
    m.coef = np.zeros((n, 1))
    m.lvi = scp.sparse.csc_array(np.diag(1 / np.sqrt(D)))
    core = (np.sqrt(D)[:, None] * (Q * share)) @ (Q.T * np.sqrt(D))
    m.hessian = scp.sparse.csc_array(-core / phi)
    m.scale = phi
    m.edf = np.float64(share.sum())
    m.get_llk = lambda penalized=True, *a, **k: np.float64(spec["llk"]) - (7.0 if penalized else 0.0)
    if kind_ == "ext":
        m.family = copy.deepcopy(m.family)
        m.family.est_theta = spec["est"]
    return m


def check_comparison(base, rec):
    from mssm.src.python.compare import compare_CDL

    a, b = (dressed(base[rec["kind"]], rec["kind"], MODS[rec[x] - 1]) for x in ("m1", "m2"))
    if not rec["opt"]["same"]:
        b = dressed(base["one" if rec["kind"] != "one" else "two"], rec["kind"], MODS[rec["m2"] - 1])
    kw = {"perform_GLRT": rec["opt"]["glrt"], "correct_V": False}
    if rec["opt"]["t1"] != "none":
        kw["correct_t1"] = rec["opt"]["t1"] == "yes"
    try:
        r = compare_CDL(a, b, **kw)
    except ValueError:
        need(rec["verdict"] == "rejected", "a valid comparison is rejected")
        return
    need(rec["verdict"] != "rejected", "the comparison has to be rejected")
    near(r["DOF1"], rec["dof"][0] / 4, 1e-9, "degrees of freedom of the first model")
    near(r["DOF2"], rec["dof"][1] / 4, 1e-9, "degrees of freedom of the second model")
    near(r["Res. DOF"], (rec["dof"][0] - rec["dof"][1]) / 4, 1e-9, "difference of degrees of freedom")
    if rec["t1"]:
        near(r["DOF12"], rec["aicd"][0] / 4, 1e-9, "degrees of freedom of the first criterion")
        near(r["DOF22"], rec["aicd"][1] / 4, 1e-9, "degrees of freedom of the second criterion")
    near(r["test_stat"], rec["stat"], 1e-9, "likelihood ratio")
    near(r["aic1"], rec["aic"][0] / 4, 1e-9, "criterion of the first model")
    near(r["aic2"], rec["aic"][1] / 4, 1e-9, "criterion of the second model")
    near(r["aic_diff"], (rec["aic"][0] - rec["aic"][1]) / 4, 1e-9, "difference of the criteria")
    t = rec["test"]
    if not t["p"]:
        need(np.isnan(r["p"]), f"a p-value ({r['p']}) is reported")
        return
    if rec["kind"] == "two":
        p = scp.stats.f.sf(t["stat"] / (t["df"] / 4), t["df"] / 4, t["rest"] / 4)
    else:
        p = scp.stats.chi2.sf(t["stat"], t["df"] / 4)
    near(r["p"], p, 1e-9, "p-value")
    need(bool(r["H1"]) == (p <= 0.05), "decision")


# --------------------------------------------------------------------------- correction
class Corrected:
    """A fitted model, and what the correction has to be for it."""

    def __init__(self, name, e, off=0.0):
        self.name, self.m = name, e.model
        self.F = F = fo.Fit(name, e.model, off)
        self.nH = -fo.dense(self.m.hessian)
        self.rho = np.log(F.lam)
        self.A0 = self.A(self.rho)
        self.full = bool(F.keep.all())
        self.k = len(F.lam)

    def pen(self, rho):
        return sum((np.exp(r) * P for r, P in zip(rho, self.F.parts)), np.zeros((self.F.n,) * 2))

    def A(self, rho):
        return self.nH + self.pen(rho) / self.F.phi

    def logdet(self, lam, phi):
        F = self.F
        keep = F.lam, F.S, F.phi
        F.lam, F.phi = lam, phi
        F.S = sum((a * P for a, P in zip(lam, F.parts)), np.zeros((F.n, F.n)))
        out = sum(np.linalg.slogdet(C)[1] + 2 * np.log(d).sum() for _, _, C, d in F.blocks())
        F.lam, F.S, F.phi = keep
        return out

    def quadratic(self, rho):
        """Restricted likelihood with the log-likelihood replaced by its expansion at the estimate."""
        b0 = self.F.b
        A = self.A(rho)
        k = np.ix_(self.F.keep, self.F.keep)
        b = np.zeros(len(b0))
        b[self.F.keep] = np.linalg.solve(A[k], (self.A0 @ b0)[self.F.keep])
        d = b - b0
        g = (self.A0 - self.nH) @ b0
        return (g @ d - 0.5 * d @ self.nH @ d - 0.5 * b @ self.pen(rho) @ b / self.F.phi
                + 0.5 * self.logdet(np.exp(rho), self.F.phi) - 0.5 * np.linalg.slogdet(A[k])[1])

    def rho_curvature(self, h=1e-2):
        E = np.eye(self.k) * h
        q, r = self.quadratic, self.rho
        return np.array([[(q(r + a + b) - q(r + a - b) - q(r - a + b) + q(r - a - b)) / (4 * h * h)
                          for a in E] for b in E])

    def V0(self):
        return self.F.V()

    def J(self):
        V = self.V0()
        return np.stack([-V @ (a * P @ self.F.b) / self.F.phi for a, P in zip(self.F.lam, self.F.parts)], 1)

    def root_part(self, Vpr, h=1e-2):
        def root(r):
            return np.linalg.inv(np.linalg.cholesky(self.A(r)).T)

        E = np.eye(self.k) * h
        D = [(8 * (root(self.rho + e) - root(self.rho - e)) - (root(self.rho + 2 * e) - root(self.rho - 2 * e))) / (12 * h)
             for e in E]
        return sum(Vpr[i, j] * D[i] @ D[j].T for i in range(self.k) for j in range(self.k))

    # candidates ------------------------------------------------------------
    def solvable(self):
        return self.F.gamm and self.F.base in ("gauss", "gaussfix", "poisson", "binom", "binomn") and self.full

    def curvature_at(self, b, phi):
        F = self.F
        X = F.X[0]
        if F.base.startswith("gauss"):
            return X.T @ X / phi
        mu = F.mean(F.etas(b)[0])
        w = mu if F.base == "poisson" else mu * (1 - mu) * (1 if F.trials is None else F.trials)
        return X.T @ (w[:, None] * X)

    def candidate(self, lam):
        F = self.F
        X, y = F.X[0], F.y[0]
        S = sum((a * P for a, P in zip(lam, F.parts)), np.zeros((F.n, F.n)))
        if F.base.startswith("gauss"):
            XX = X.T @ X
            b = np.linalg.solve(XX + S, X.T @ (y - F.offset))
            phi = F.phi
            if F.base == "gauss":
                phi = ((y - F.etas(b)[0]) ** 2).sum() / (len(y) - np.trace(np.linalg.solve(XX + S, XX)))
        else:
            phi, b = 1.0, F.b.copy()
            for _ in range(200):
                mu = F.mean(F.etas(b)[0])
                g = X.T @ ((y - mu) * (1 if F.trials is None else F.trials)) - S @ b
                step = np.linalg.solve(self.curvature_at(b, 1.0) + S, g)
                b = b + step
                if np.abs(step).max() < 1e-10:
                    break
        nH = self.curvature_at(b, phi)
        A = nH + S / phi
        ll = fo.gamm_rows(F.base, y, F.etas(b)[0], phi, None, F.trials).sum()
        reml = ll - 0.5 * b @ S @ b / phi + 0.5 * self.logdet(lam, phi) - 0.5 * np.linalg.slogdet(A)[1]
        return b, np.linalg.inv(A), reml

    def mean_curvature(self, b):
        """Curvature (and scale) at the average coefficients."""
        F = self.F
        if F.base != "gauss":
            return self.curvature_at(b, F.phi)
        X = F.X[0]
        edf = np.trace(np.linalg.solve(X.T @ X + F.S, X.T @ X))
        return self.curvature_at(b, ((F.y[0] - F.etas(b)[0]) ** 2).sum() / (len(F.y[0]) - edf))

    def first(self, Vp, Vpr, root):
        V = self.V0() + self.J() @ Vp @ self.J().T
        return V + self.root_part(Vpr) if root else V

    def weighted(self, p, draws, Vpr, prior, df):
        """Drawn smoothing parameters (the estimate among them), what they lead to and how much they count."""
        lam = np.exp(np.asarray(draws, float).reshape(-1, self.k))
        if not np.any(np.abs(lam - self.F.lam).max(axis=1) < 0.1 * np.sqrt(np.diag(Vpr)).min()):
            lam = np.concatenate([self.F.lam[None, :], lam])
        C = [self.candidate(x) for x in lam]
        re = np.array([c[2] for c in C])
        if p["weights"] == "equal":
            w = np.full(len(C), 1 / len(C))
        elif p["weights"] == "reml":
            w = scp.special.softmax(re)
        else:
            q = scp.stats.multivariate_t(loc=self.rho, shape=Vpr, df=df, allow_singular=True).logpdf(np.log(lam))
            w = scp.special.softmax(re + prior.logpdf(np.log(lam)) - q)
        return lam, C, w

    def drawn_cov(self, p, draws, prior, df):
        lam, _, w = self.weighted(p, draws, self.Vpr, prior, df)
        d = np.log(lam) - w @ np.log(lam)
        Vp = (w[:, None] * d).T @ d
        ev, U = np.linalg.eigh(Vp)
        ok = ev > 0
        return Vp, (U[:, ok] / (1 / np.sqrt(ev[ok]) + 0.1) ** 2) @ U[:, ok].T

    def exact_curvature(self, h=5e-2):
        def q(r):
            return self.candidate(np.exp(r))[2]

        def at(h):
            E = np.eye(self.k) * h
            r = self.rho
            return np.array([[(q(r + a + b) - q(r + a - b) - q(r - a + b) + q(r - a - b)) / (4 * h * h)
                              for a in E] for b in E])

        return (4 * at(h) - at(2 * h)) / 3

    def expected(self, rec, draws, Vp, Vpr, prior, df):
        o, p = rec["o"], rec["parts"]
        lin = self.J() @ Vp @ self.J().T
        lam, C, w = self.weighted(p, draws, Vpr, prior, df)
        B = np.stack([c[0] for c in C])
        mean = w @ B
        EV = sum(a * c[1] for a, c in zip(w, C))
        nH = self.mean_curvature(mean) if p["curvature"] == "mean" else self.nH
        spread = (w[:, None, None] * (B - mean)[:, :, None] * (B - mean)[:, None, :]).sum(0)
        if p["report"] == "edf":
            t = max(float(self.m.edf), np.trace(EV @ nH))
            extra = np.trace(lin @ nH)
            if o["grid"] == "JJJ3":
                extra = max(extra, np.trace(spread @ nH))
            return None, None, t + extra
        if o["grid"] == "JJJ2":
            if np.trace(EV @ nH) < float(self.m.edf):
                EV, nH = self.V0(), self.nH
            return EV + lin, nH, None
        V = EV + spread
        low = self.first(Vp, Vpr, o["second"])
        if np.trace(low @ self.nH) > np.trace(V @ nH):
            V, nH = low, self.nH
        return V, nH, None


@contextlib.contextmanager
def watching():
    """Smoothing parameters drawn while correcting."""
    seen = []
    inst = scp.stats.multivariate_t
    orig = inst.rvs

    def rvs(*a, **k):
        r = orig(*a, **k)
        seen.append(np.array(r, float))
        return r

    inst.rvs = rvs
    try:
        yield seen
    finally:
        del inst.rvs


def options(rec, n):
    from mssm.src.python.utils import MVUniformRhoPrior

    o = rec["o"]
    kw = dict(grid_type=o["grid"], n_c=o["cores"], use_importance_weights=o["weigh"], recompute_H=o["again"],
              only_expected_edf=o["only"], compute_Vcc=o["second"], form_t1=o["t1"], nR=n, seed=5,
              Vp_fidiff=o["vp"] == "exact", VP_grid_type="JJJ2" if o["vp"] == "drawn" else "JJJ1")
    prior = MVUniformRhoPrior(-25.0, 25.0) if o["prior"] else None
    if prior is not None:
        kw["prior"] = prior
    return kw, prior


def upper(c):
    G = c.V0() @ c.nH
    return 2 * np.diag(G) - np.diag(G @ G)


def check_correction(c, rec, n, method=None):
    from mssm.src.python.utils import correct_VB

    kw, prior = options(rec, n)
    if method is not None:
        kw["method"] = method
    with watching() as seen:
        V, LV, Vp, Vpr, edf, tot, edf2, tot2, only, mean = correct_VB(c.m, **kw)
    o, p = rec["o"], rec["parts"]
    tol = 1e-4 if c.F.base in ("gauss", "gaussfix") else 2e-3
    G = c.V0() @ c.nH
    if p["cov"] == "drawn" and c.solvable() and Vp is not None:
        a, b = c.drawn_cov(p, seen[0], prior, 40)
        near(Vp, a, 1e-2 * max(0.1, np.abs(a).max()), "covariance of the log smoothing parameters drawn")
        near(Vpr, b, 1e-2 * max(0.1, np.abs(b).max()), "regularised covariance of the log smoothing parameters drawn")
    elif Vp is not None and (p["cov"] == "local" or c.solvable()):
        H = c.rho_curvature() if p["cov"] == "local" else c.exact_curvature()
        ev = np.linalg.eigvalsh(-H)
        if ev.min() > (2e-2 if p["cov"] == "local" else 1e-1):
            near(np.linalg.inv(-H), Vp, (1e-2 if p["cov"] == "local" else 3e-2) * np.abs(Vp).max(),
                 "covariance of log smoothing parameters")
    if o["grid"] == "JJJ1":
        need(np.linalg.eigvalsh(Vp - Vpr).min() >= -1e-8 * max(1, np.abs(Vp).max()) and np.linalg.eigvalsh(Vpr).min() > -1e-9,
             "the regularised covariance exceeds the other one")
        if not c.full:
            return None
        W, nH = c.first(Vp, Vpr, o["second"]), c.nH
        V = np.asarray(V)
        near(V, W, 2e-6 * np.abs(W).max(), "corrected covariance")
    elif not c.solvable() or not seen:
        return only if p["report"] == "edf" else (np.asarray(V), float(tot))
    else:
        draws = seen[-1]
        if Vp is None:  # only degrees of freedom are reported
            Vp, Vpr = c.Vp, c.Vpr
        W, nH, e = c.expected(rec, draws, Vp, Vpr, prior, 40)
        if e is not None:
            near(only, e, tol * max(1, abs(e)), "expected degrees of freedom")
            return None
        near(np.asarray(V), W, tol * np.abs(W).max(), "corrected covariance")
    V = np.asarray(V)
    L = fo.dense(LV)
    need(np.abs(L @ L.T - V).max() <= 1e-8 * np.abs(V).max(), "the root does not reproduce the covariance")
    D = V @ nH
    u = upper(c)
    if np.trace(D) > u.sum() + 1e-6:
        d = u
    elif np.trace(D) < u.sum() - 1e-6:
        d = np.diag(D)
    else:
        return None
    t = 10 * tol * max(1, d.sum())
    near(tot, d.sum(), t, "corrected degrees of freedom")
    near(np.ravel(edf), d, t, "corrected degrees of freedom by coefficient")
    s = u + (d - np.diag(G)) if o["t1"] else u
    near(tot2, s.sum(), t, "degrees of freedom corrected for bias")
    near(np.ravel(edf2), s, t, "degrees of freedom corrected for bias by coefficient")
    return None


def check_compared(a, b, grid, glrt, t1, seed):
    """A comparison with correction is made of the two corrections."""
    from mssm.models import Family
    from mssm.src.python.compare import compare_CDL
    from mssm.src.python.utils import correct_VB

    kw = dict(nR=12, n_c=1, seed=seed, use_importance_weights=grid != "JJJ1", recompute_H=False)
    if a.F.base == "prophaz":
        kw["bfgs_options"] = {"ftol": 1e-7, "maxcor": 20, "maxls": 50, "maxfun": 500}
    if glrt and len(a.m.coef) < len(b.m.coef):
        a, b = b, a
    r = compare_CDL(a.m, b.m, correct_V=True, grid=grid, perform_GLRT=glrt, correct_t1=t1, **kw)
    T1 = glrt if t1 is None else t1
    out = []
    for c in (a, b):
        z = correct_VB(c.m, grid_type=grid, form_t1=T1, **kw)
        x = 1 if isinstance(c.m.family, Family) and c.m.family.twopar else 0
        x += len(c.m.family.theta) if c.F.base == "scaledt" else 0
        out.append((z[5] + x, (z[7] if T1 else z[5]) + x, float(c.m.get_llk(penalized=False))))
    for i, (aic, d, ll) in enumerate(out, 1):
        near(r[f"DOF{i}"], d, 1e-7, f"degrees of freedom of model {i}")
        near(r[f"aic{i}"], -2 * ll + 2 * aic, 1e-6, f"criterion of model {i}")
    near(r["aic_diff"], r["aic1"] - r["aic2"], 1e-8, "difference of criteria")
    near(r["test_stat"], 2 * (out[0][2] - out[1][2]), 1e-7, "likelihood ratio")


PAIRS = [("gauss_mix", "gauss_by"), ("gauss_lin", "gauss_mix"), ("poisson_by", "poisson_ids"), ("binom_mix", "binom_mix"),
         ("gamma_mix", "gamma_shared"), ("gaumlss", "gaumlss_by"), ("gaumlss_ids", "gaumlss"), ("scaledt", "scaledt_mix"),
         ("prophaz", "prophaz")]
QUICK = ["gauss_mix", "gauss_by", "gauss_te", "gauss_fs", "gausslog", "binom_mix", "poisson_by", "gamma_mix", "scaledt",
         "gaumlss", "mulnom", "prophaz", "gauss_shared", "gaussfix_te", "binomn_small", "gauss_ids", "gauss_lost"]
MORE = ["gauss_inter", "invgauss", "gammafix_small", "gammals", "poisson_ids", "poisson_te", "gaumlss_ids", "gaumlss_by",
        "mulnom_mix", "gamma_shared", "scaledt_mix", "poisson_lost", "gamma_lost"]
# fitted with an offset
SHIFTED = ["gauss_mix", "poisson_by", "binom_mix"]


def fitted(name, seed, off=None):
    e = zoo.ALL[name](seed)
    e.fit(**({} if off is None else {"offset": off}))
    return Corrected(name, e, 0.0 if off is None else off)


def run(chk):
    warnings.simplefilter("ignore")
    recs = chk.tlc("Compare", defs={"Mods": tla(MODS), "Kinds": '{"one", "two", "ext", "par"}'},
                   consts={"Rows": str(ROWS), "Shapes": "2"}, spec="Spec", invariants=INV1).records
    cors = chk.tlc("Compare", defs={"Mods": tla(MODS), "Kinds": '{"one"}'}, consts={"Rows": str(ROWS), "Shapes": "2"},
                   spec="CSpec", invariants=INV2).records
    base = stand_ins()

    def guarded(fn, *a):
        try:
            with deadline(300):
                return fn(*a), None
        except Bad as e:
            return None, str(e)
        except Exception as e:  # noqa: BLE001
            return None, f"raises {type(e).__name__}: {e}"

    n = len(recs)
    for part in pmap(lambda w: [(j, guarded(check_comparison, base, recs[j])[1]) for j in range(w, n, 8)], 8):
        for j, bad in part:
            if bad:
                chk.violation("comparison", bad, recs[j])
            else:
                chk.ok()
    chk.count("comparisons", n)

    names = QUICK + ([] if chk.quick else MORE)
    seeds = [chk.seed] if chk.quick else [chk.seed, chk.seed + 1]
    jobs = [(nm, s, None) for nm in names for s in seeds] + [(nm, s, 0.4) for nm in SHIFTED for s in seeds]
    J1 = [r for r in cors if r["o"]["grid"] == "JJJ1"]
    JX = [r for r in cors if r["o"]["grid"] != "JJJ1" and (r["o"]["vp"] == "local" or r["o"]["cores"] == 1)]
    per, nR = (6, 15) if chk.quick else (12, 25)

    def work(k):
        name, seed, off = jobs[k]
        rng = np.random.default_rng([chk.seed, k, 17])
        out, done = [], 0
        c, bad = guarded(fitted, name, seed, off)
        rep = {"model": name, "seed": seed, "offset": off}
        if bad:
            return [("fit", f"{name}: {bad}", rep)], 0
        if not c.m.info.code == 0:
            return [], 0
        from mssm.src.python.utils import correct_VB

        z, bad = guarded(lambda: correct_VB(c.m, grid_type="JJJ1", n_c=1))
        if bad:
            return [("correction", f"{name}: {bad}", rep)], 1
        c.Vp, c.Vpr = z[2], z[3]
        heavy = [r for r in J1 if r["o"]["vp"] != "local"]
        heavy = [heavy[j] for j in rng.choice(len(heavy), 2 if chk.quick else 4, replace=False)] if c.solvable() else []
        for r in [r for r in J1 if r["o"]["vp"] == "local"] + heavy:
            _, bad = guarded(check_correction, c, r, nR)
            done += 1
            if bad:
                out.append(("correction", f"{name} {r['o']}: {bad}", {**rep, "options": r["o"]}))
        if not c.full:
            return out, done
        if name in ("prophaz",) or np.linalg.eigvalsh(c.Vp).max() > 60:
            pick = []  # draws far from the estimate: candidates need not converge
        else:
            pick = [JX[j] for j in rng.choice(len(JX), per if c.solvable() else per // 3 + 1, replace=False)]
        for r in pick:
            got, bad = guarded(check_correction, c, r, nR)
            done += 1
            if bad:
                out.append(("correction", f"{name} {r['o']}: {bad}", {**rep, "options": r["o"]}))
            elif got is not None:
                twin = {**r, "o": {**r["o"], "cores": 3 - r["o"]["cores"]}}
                again, bad = guarded(check_correction, c, twin, nR)
                if not bad:
                    for x, y in zip(np.atleast_1d(got) if np.isscalar(got) else got,
                                    np.atleast_1d(again) if np.isscalar(again) else again):
                        if not np.allclose(x, y, rtol=1e-3, atol=1e-4 * max(1, np.abs(x).max())):
                            bad = f"another number of workers gives {np.ravel(y)[:3]} instead of {np.ravel(x)[:3]}"
                if bad:
                    out.append(("workers", f"{name} {r['o']}: {bad}", {**rep, "options": r["o"]}))
        return out, done

    for out, done in pmap(work, len(jobs)):
        chk.ok(done - len(out))
        chk.count("corrections", done)
        for clause, msg, rep in out:
            chk.violation(clause, msg, rep)

    def pairs(k):
        out = []
        (x, y), seed = todo[k]
        (a, ba), (b, bb) = guarded(fitted, x, seed), guarded(fitted, y, seed + 3)
        if ba or bb or a.m.info.code or b.m.info.code:
            return out, 0
        for j, (g, t1) in enumerate([(False, None), (True, None), (True, False), (False, True)]):
            grid = "JJJ1" if j % 2 == 0 or not (a.solvable() and b.solvable()) else "JJJ2"
            _, bad = guarded(check_compared, a, b, grid, g, t1, seed)
            if bad:
                out.append(("compared", f"{x} and {y} {grid} glrt={g} t1={t1}: {bad}", {"models": [x, y], "seed": seed}))
        return out, 4

    todo = [(p, s) for p in PAIRS for s in seeds]
    for out, done in pmap(pairs, len(todo)):
        chk.ok(done - len(out))
        chk.count("compared", done)
        for clause, msg, rep in out:
            chk.violation(clause, msg, rep)
    chk.sample(recs[7])
    chk.sample(cors[3])
    chk.assumptions += ["the draws of smoothing parameters themselves are not judged",
                        "sampling based corrections are recomputed for Gaussian, Poisson and binomial models; for others only "
                        "independence of the number of workers is checked"]
