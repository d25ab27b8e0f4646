"""C12: whitening of residuals within series (spec/Data.tla links replayed into the real code)."""

import numpy as np

from . import data_inst as di
from .c08_data import Bad, make, need
from .common import pmap

RHOS = (0.3, -0.6, 0.9, 0.0)


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0))))


def series_of(rec):
    """Without a series variable everything is one series."""
    k, out = None, []
    for e in rec["kept"]:
        out.append(dict(e, prev=k or 0))
        k = e["row"]
    return dict(rec, kept=out)


def whiten(rec, used, seed):
    from mssm.src.python.utils import computeAr1Chol

    rng = np.random.default_rng(seed)
    d = di.frame(rec, rng)
    for series in (True, False):
        F = make(d, used, (), series)
        for rho in RHOS:
            L, ld = computeAr1Chol(F, rho)
            M, wld = di.linked(rec if series else series_of(rec), rho)
            need(close(L.toarray().T, M),
                 f"rho {rho} series {series}: rows are combined as\n{np.round(L.toarray().T, 3)}\n"
                 f"expected\n{np.round(M, 3)}")
            need(close(float(ld), wld), f"rho {rho}: log-determinant {ld}, expected {wld}")


def layouts(rng, count, lo=30, hi=60):
    out = []
    for _ in range(count):
        n, s, f = int(rng.integers(lo, hi)), 1, []
        hole = rng.random() < 0.7
        for j in range(n):
            first = j == 0
            if j and rng.random() < 0.15:
                s += 1
                first = True
            m = ()
            if hole and rng.random() < (0.5 if first else 0.15):
                m = [("y",), ("x",), ("x", "y")][rng.integers(3)]
            f.append((m, di.ORDER[rng.integers(3)], s))
        out.append(f)
    return out


def fitted(rec, seed, variant):
    """Fit a model with an ar1 model of residuals and compare with the whitened problem."""
    from mssm.models import GAMM, Formula, f, i, lhs, ri
    from mssm.src.python.exp_fam import Gaussian, Poisson, LOG, Gamma

    rng = np.random.default_rng(seed)
    d = di.frame(rec, rng)
    n = len(d)
    ok = ~d["x"].isna()
    d.loc[ok, "x"] = rng.uniform(0, 1, int(ok.sum()))
    mu = np.sin(4 * d["x"].fillna(0.5).to_numpy())
    ok = ~d["y"].isna().to_numpy()
    fam = Gaussian()
    if variant == "poisson":
        d.loc[ok, "y"] = rng.poisson(np.exp(1 + mu))[ok].astype(float)
        fam = Poisson()
    elif variant == "gamma":
        d.loc[ok, "y"] = (rng.gamma(5, 1 / 5, n) * np.exp(1 + mu))[ok]
        fam = Gamma(link=LOG())
    else:
        d.loc[ok, "y"] = (mu + rng.normal(size=n) * 0.5)[ok]
    rho = RHOS[seed % 3]
    rows = [e["row"] - 1 for e in rec["kept"]]
    before = d.copy(deep=True)
    series = variant != "one"
    terms = [i(), f(["x"], nk=5)] + ([ri("g")] if variant == "random" else [])
    if variant == "linear":
        from mssm.models import l

        terms = [i(), l(["x"])]
    F = Formula(lhs("y"), terms, d, series_id="ser" if series else None, print_warn=False)
    m = GAMM(F, fam)
    kw = {}
    off = np.zeros((len(rows), 1))
    if variant == "offset":
        o = rng.normal(size=(n, 1))
        kw["offset"] = o
        off = o[rows]
    if variant == "chol":
        kw["method"] = "Chol"
    m.fit(progress_bar=False, rho=rho, n_cores=1, **kw)
    need(before.equals(d), "data frame changed")
    M, ld = di.linked(rec if series else series_of(rec), rho)
    X = m.get_mmat().toarray()
    y = d["y"].to_numpy()[rows].reshape(-1, 1)
    need(close(m.get_ys(), y), "response changed by fit")
    b = m.coef
    S = np.zeros((X.shape[1],) * 2)
    for p in m.overall_penalties:
        S += p.lam * p.S_J_emb.toarray()
    tag = f"{variant} rho {rho}"
    if m.info.code != 0:
        return "unconverged"
    eta = X @ b
    if variant in ("poisson", "gamma"):
        need(close(m.preds[0], eta, 1e-6), f"{tag}: predictor is not matrix times coefficients")
        mu = np.exp(eta)
        z = eta + (y - mu) / mu
        w = mu if variant == "poisson" else np.ones_like(mu)
        Wr = np.sqrt(w)
        Xw, yw = M @ (Wr * X), M @ (Wr * z)
        bb = np.linalg.solve(Xw.T @ Xw + S, Xw.T @ yw)
        stalled = False
        if not close(b, bb, 5e-3):
            # the whitened solution is refused because it raises the deviance that ignores rho
            def pd(c):
                return float(m.family.deviance(y, np.exp(X @ c)) + (c.T @ S @ c).item())

            stalled = pd(bb) > pd(b)
            need(stalled, f"{tag}: coefficients {b.T} do not solve the whitened working model "
                 f"{bb.T}")
        need(stalled or close(m.res_ar, M @ (Wr * (z - eta)), 1e-2), f"{tag}: ar1 residuals")
        need(close(m.res, Wr * (z - eta), 1e-2), f"{tag}: working residuals")
        V = np.linalg.inv(Xw.T @ Xw + S)
        L = m.lvi.toarray()
        need(close(L.T @ L, V, 2e-2), f"{tag}: covariance")
        llk = m.family.llk(y, mu) if variant == "poisson" else m.family.llk(y, mu, scale=m.scale)
        need(close(float(m.get_llk(False)), float(llk) + ld, 1e-6), f"{tag}: log-likelihood")
        H = X.T @ (Wr * (M.T @ M @ (Wr * X))) / m.scale
        need(close(m.hessian.toarray(), -H, 1e-2), f"{tag}: hessian")
        return "stalled" if stalled else "ok"
    Xw, yw = M @ X, M @ (y - off)
    A = Xw.T @ Xw + S
    bb = np.linalg.solve(A, Xw.T @ yw)
    need(close(b, bb, 1e-5), f"{tag}: coefficients {b.T}, whitened data give {bb.T}")
    need(close(m.preds[0], eta + off, 1e-8), f"{tag}: predictor")
    need(close(m.get_resid("ar1"), yw - Xw @ b, 1e-7), f"{tag}: ar1 residuals")
    need(close(m.get_resid("Pearson"), y - off - eta, 1e-7), f"{tag}: residuals")
    V = np.linalg.inv(A)
    L = m.lvi.toarray()
    need(close(L.T @ L, V, 1e-5), f"{tag}: covariance of coefficients")
    edf = np.trace(V @ Xw.T @ Xw)
    need(abs(m.edf - edf) < 1e-3, f"{tag}: edf {m.edf}, expected {edf}")
    r = yw - Xw @ b
    sc = float(r.T @ r) / (len(rows) - edf)
    need(abs(m.scale / sc - 1) < 1e-4, f"{tag}: scale {m.scale}, expected {sc}")
    llk = float(np.sum(-0.5 * np.log(2 * np.pi * m.scale) - r**2 / (2 * m.scale))) + ld
    need(abs(float(m.get_llk(False)) - llk) < 1e-6 * (1 + abs(llk)),
         f"{tag}: log-likelihood {m.get_llk(False)}, expected {llk}")
    pen = float(b.T @ S @ b)
    need(abs(float(m.get_llk(True)) - (llk - 0.5 * pen / m.scale)) < 1e-5 * (1 + abs(llk) + pen / m.scale),
         f"{tag}: penalised log-likelihood")
    need(close(m.hessian.toarray(), -(Xw.T @ Xw) / m.scale, 1e-6), f"{tag}: hessian")
    # predictions are those of the untransformed model
    nd = d[["x", "g", "ser", "y"]].iloc[rows].reset_index(drop=True)
    pr = m.predict(None, nd, ci=False)[0]
    need(close(pr.reshape(-1, 1), eta, 1e-7), f"{tag}: predictions")
    # fitting again without ar1 model forgets it
    m.fit(progress_bar=False, n_cores=1)
    if m.info.code != 0:
        return "ok"
    S = sum((p.lam * p.S_J_emb.toarray() for p in m.overall_penalties), np.zeros_like(S))
    bb = np.linalg.solve(X.T @ X + S, X.T @ y)
    need(close(m.coef, bb, 1e-5), f"{tag}: refit without ar1 model")
    r = y - X @ m.coef
    llk = float(np.sum(-0.5 * np.log(2 * np.pi * m.scale) - r**2 / (2 * m.scale)))
    need(abs(float(m.get_llk(False)) - llk) < 1e-6 * (1 + abs(llk)),
         f"{tag}: log-likelihood after refit without ar1 model")
    return "ok"


def run(chk):
    import mssm.models  # noqa: F401

    q = chk.quick
    fams = [(5, ["x"], [(), ("x",)], ["a"]), (4, ["x"], [(), ("y",), ("x",), ("g",)], ["a"]),
            (6, [], [(), ("y",)], ["a"])]
    if not q:
        fams += [(7, ["x"], [(), ("y",)], ["a"]), (5, ["x", "g"], [(), ("y",), ("x",), ("g",)], ["a"])]
    jobs = []
    for n, used, miss, lev in fams:
        recs = di.behaviours(chk, n, used, miss, lev)
        if used:
            recs = [r for r in recs if not all("x" in e["miss"] for e in r["rows"])]
        jobs += [("whiten", r, used) for r in recs]
        chk.count(f"layouts_{n}", len(recs))
    rng = np.random.default_rng(chk.seed)
    k = 3 if q else 12
    for variant in ("gauss", "offset", "chol", "one", "random", "linear", "poisson", "gamma"):
        used = ["x", "g"] if variant == "random" else ["x"]
        recs = di.behaviours(chk, 0, used, [()], ["a"], (), layouts(rng, k))
        jobs += [(variant, r, used) for r in recs]
        chk.count("fits_" + variant, len(recs))

    def work(w):
        out, un, st = [], 0, 0
        for j in range(w, len(jobs), 8):
            kind, rec, used = jobs[j]
            try:
                if kind == "whiten":
                    whiten(rec, used, chk.seed + j)
                else:
                    r = fitted(rec, chk.seed + j, kind)
                    un += r == "unconverged"
                    st += r == "stalled"
            except Bad as e:
                out.append((j, kind, str(e)))
            except Exception as e:  # noqa: BLE001
                import traceback

                out.append((j, "raises", f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}"))
        return out, un, st

    un = 0
    for part, u, st in pmap(work, 8):
        un += u
        if st:
            chk.violation("generalised", "coefficients of generalised ar1 models stop short",
                          finding="ar1-generalised-step")
        for j, clause, msg in part:
            chk.violation(clause, f"rows {jobs[j][1]['rows'][:12]}: {msg}",
                          replay={"kind": jobs[j][0], "record": jobs[j][1], "seed": chk.seed + j})
    chk.ok(len(jobs) - un)
    chk.count("fits_unconverged", un)
    for j in (0, -1):
        chk.sample({"kind": jobs[j][0], "rows": jobs[j][1]["rows"][:8], "kept": jobs[j][1]["kept"][:8]})
    chk.assumptions += ["series are contiguous", "fits that report non-convergence are not judged"]
