"""C13: results of estimation (configurations of spec/Fit.tla, judged with densities written down anew)."""

import warnings

import numpy as np

from . import fit_oracle as fo
from . import zoo
from .c08_data import Bad, need
from .common import deadline, pmap, tla

INV = ["Solved", "Consistent", "Own", "Omitted", "Known"]


def methods(name):
    base = name.split("_")[0]
    if base == "multigauss" or base == "multigauss2" or name == "prophaz_q":
        return ["qEFS"]
    if base == "prophaz":
        return ["QR/Chol", "Chol", "LU/Chol", "Direct/Chol", "qEFS"]
    if base in ("gaumlss", "gammals", "mulnom"):
        return ["QR/Chol", "Chol", "LU/Chol", "Direct/Chol"]
    return ["QR", "Chol"]


def kind(name):
    m = methods(name)
    return "gamm" if m[0] == "QR" else "gsmm" if "qEFS" in m else "lss"


def traits(name):
    base = name.split("_")[0]
    return {
        "Kind": kind(name),
        "Penalised": not (name.endswith("lin") and not name.endswith("gauss_lin2")),
        "Dispersed": kind(name) == "gamm" and base in ("gauss", "gausslog", "gamma", "gammaid", "invgauss"),
        "Shifted": kind(name) == "gamm" and base != "gammaid",
        "Deficient": "lost" in name,
        "Methods": methods(name),
    }


def configurations(chk, name, far):
    t = traits(name)
    recs = chk.tlc("Fit", defs={k: tla(v) for k, v in t.items()},
                   consts={"Iters": "2", "Tries": "2", "Far": str(far)}, spec="Spec", invariants=INV,
                   workers=1).records
    seen, out = set(), []
    for r in recs:
        # running out of iterations is something only a small bound on iterations brings about here
        k = repr(sorted(r["cfg"].items()))
        if r["how"] == ("exhausted" if r["cfg"]["outer"] == "few" else "converged") and k not in seen:
            seen.add(k)
            out.append(r)
    return out


def offset(e, o):
    if o == "none":
        return None
    if o == "number":
        return 0.4
    return np.round(0.3 * np.sin(np.arange(len(e.d))), 3).reshape(-1, 1)


def settle(e, cfg):
    """Fit with the options of a configuration."""
    from mssm.models import GAMM

    m = e.model
    kw = {"method": cfg["method"], "n_cores": cfg["cores"]}
    if cfg["extend"]:
        kw["extend_lambda"] = True
    if cfg["outer"] == "few":
        kw["max_outer"] = 3
    off = None
    if isinstance(m, GAMM):
        kw["control_lambda"] = cfg["control"]
        off = offset(e, cfg["offset"])
        if off is not None:
            kw["offset"] = off
        if cfg["inner"] == "one":
            kw["max_inner"] = 1
        if cfg["exclude"]:
            kw["exclude_lambda"] = True
    else:
        if cfg["method"] != "qEFS" or cfg["control"] != 2:
            kw["control_lambda"] = cfg["control"]
        kw["repara"] = cfg["repara"]
        if cfg["start"] in ("small", "large"):
            kw["init_lambda"] = [0.02 if cfg["start"] == "small" else 500.0] * 40
        if cfg["start"] == "seed":
            kw["seed"] = 11
        if cfg["method"] == "qEFS":
            kw.setdefault("max_inner", 500)
    e.fit(**kw)
    if cfg["restart"]:
        kw.pop("init_lambda", None)
        e.fit(**{**kw, "restart": True})
    return off


def near(a, b, tol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    need(a.shape == b.shape, f"{what}: shape {a.shape}, expected {b.shape}")
    d = np.max(np.abs(a - b), initial=0) / (1 + np.max(np.abs(b), initial=0))
    need(d <= tol, f"{what} differs by {d:.2e} (relative; {np.ravel(a)[:3]}, expected {np.ravel(b)[:3]})")


# what may remain, for methods with exact curvature and for those that approximate it
EXACT = dict(dec=1e-3, H=1e-2, Hobs=1e-4, V=3e-3, edf=1e-3, term_edf=1e-3, res=3e-3, scale=3e-3, reml=1e-3, dl=0.5,
             eta=0.5)
QUASI = dict(dec=2.0, H=0.1, V=0.05, edf=0.1, term_edf=0.1, reml=0.05, dl=1.0)
LOG2PI = 0.5 * np.log(2 * np.pi)


def judge(name, e, rec, off):
    """None if the solver reports that it failed. Otherwise returns what other configurations of the same model can be compared with."""
    m, cfg = e.model, rec["cfg"]
    if name.startswith("prophaz"):
        m.family._vp_time = e.d["y"].to_numpy()
    o = 0.0 if off is None else off if np.ndim(off) == 0 else np.ravel(off)[~e.out]
    F = fo.Fit(name, m, o)
    few = cfg["outer"] == "few"
    st = {}
    if not few and m.info.code != 0:
        return None, None
    need(np.all(np.isfinite(F.b)), "coefficients are not finite")
    need((not F.keep.all()) == rec["dropped"], f"left out {np.where(~F.keep)[0]}")
    if rec["dropped"]:
        need(np.all(F.b[~F.keep] == 0), f"coefficients that are left out are {F.b[~F.keep]}")
    etas = F.etas(F.b)
    # extended steps are accepted without another solve if they are tiny
    tol = 1e-4 if cfg["extend"] else 1e-6
    for p, x in enumerate(etas):
        near(np.ravel(m.preds[p]), x, tol, f"fitted predictor {p}")
    if F.gamm:
        mu = F.mean(etas[0])
        near(np.ravel(m.mus[0]), mu, tol, "fitted mean")
    near(float(np.squeeze(m.penalty)), F.b @ F.S @ F.b, tol, "penalty")
    shift = 0.5 * len(F.X) * len(F.y[0]) * np.log(2 * np.pi) if name.startswith("multigauss") else 0
    llk = F.llk()
    near(float(np.squeeze(m.get_llk(False))) - shift, llk, tol / 10, "log-likelihood")
    near(float(np.squeeze(m.get_llk(True))) - shift, llk - 0.5 * F.b @ F.S @ F.b / F.phi, tol / 10,
         "penalised log-likelihood")
    # a stationary point
    st["dec"] = F.decrement()
    # curvature
    H = -fo.dense(m.hessian)
    if F.gamm:
        want = F.fisher()
    else:
        want = F.expected() if F.lss and F.expected() is not None else F.curvature()
    kk = np.ix_(F.keep, F.keep)
    st["H"] = float(np.max(np.abs(H - want)[kk]) / np.abs(want).max())
    if F.gamm and getattr(m, "hessian_obs", None) is not None:
        obs = F.curvature()
        st["Hobs"] = float(np.max(np.abs(-fo.dense(m.hessian_obs) - obs)[kk]) / np.abs(obs).max())
    if rec["dropped"]:
        need(not np.any(H[~F.keep]) and not np.any(H[:, ~F.keep]), "curvature of coefficients that are left out")
    V = F.V()
    L = fo.dense(m.lvi)
    d = np.sqrt(np.diag(V))
    d[d == 0] = 1
    st["V"] = float(np.max(np.abs(L.T @ L * F.phi - V) / np.outer(d, d)))
    edf = float(np.trace(V @ H))
    st["edf"] = abs(float(m.edf) - edf)
    if m.term_edf is not None:
        te = F.terms()
        need(len(te) == len(m.term_edf), f"{len(m.term_edf)} terms have degrees of freedom, expected {len(te)}")
        st["term_edf"] = float(np.max(np.abs(np.array(te) - np.ravel(m.term_edf)), initial=0))
    if F.gamm:
        n = len(F.y[0])
        if F.base != "scaledt":
            res = (F.y[0] - mu) / np.sqrt(F.variance(mu))
            st["res"] = float(np.max(np.abs(np.ravel(m.res) - res)) / (1e-12 + np.abs(res).max()))
            if m.family.scale is None:
                est = float(np.sum(res ** 2) / (n - edf))
                st["scale"] = abs(F.phi - est) / est
            else:
                need(F.phi == m.family.scale, f"scale {F.phi}, known to be {m.family.scale}")
        else:
            from scipy.optimize import approx_fprime

            f = lambda t: float(fo.gamm_rows("scaledt", F.y[0], etas[0], 1.0, t).sum())  # noqa: E731
            best = f(F.theta)
            g = approx_fprime(F.theta, f, 1e-5)
            for s in (0.05, -0.05):
                for k in range(len(F.theta)):
                    t = F.theta.copy()
                    t[k] += s
                    need(f(t) < best + 1e-2, f"shape parameters {F.theta} are not optimal (gradient {g})")
    reml = 0.0
    if len(F.lam):
        reml = F.reml()
        d = float(np.squeeze(m.get_reml())) - shift - reml
        if not F.gamm or rec["dropped"]:
            # a constant for every coefficient that is not penalised, which are not all counted here
            d -= LOG2PI * np.round(d / LOG2PI)
        st["reml"] = abs(d)
        st["dl"] = float(np.max(np.abs(F.slopes()) * (F.lam > 1e-6)))
    if few:
        st.pop("dec"), st.pop("dl", 0)
    if cfg["exclude"]:
        st.pop("dl", 0)
    se = [np.sqrt(np.clip(np.einsum("ij,jk,ik->i", x, V[np.ix_(b, b)], x), 1e-16, None))
          for x, b in zip(F.X, np.split(np.arange(F.n), F.ends))]
    return st, {"eta": etas, "se": se, "reml": reml, "edf": edf, "llk": llk}


WHAT = {"dec": "a Newton step still gains", "H": "curvature is off by", "Hobs": "observed curvature is off by",
        "V": "covariance of coefficients is off by", "edf": "degrees of freedom are off by",
        "term_edf": "degrees of freedom of a term are off by", "res": "residuals are off by",
        "scale": "scale is off by", "reml": "restricted likelihood is off by",
        "dl": "slope of the restricted likelihood in a log smoothing parameter is",
        "eta": "differs from the usual fit by (in standard errors)"}


def limits(cfg):
    # working residuals are those of the weights the last coefficients were solved for
    lim = QUASI if cfg["method"] == "qEFS" else EXACT
    return lim if cfg["outer"] == "many" else {**lim, "res": 0.1, "scale": 0.1, "H": 0.1}


def usual(name, cfg):
    q = methods(name)[0] == "qEFS"
    u = dict(method=methods(name)[0], control=1 if q else 2, extend=False, repara=True, start="usual", cores=1,
             inner="many", offset="none", restart=False, exclude=False, outer="many")
    return {k: v for k, v in cfg.items() if v != u[k]}


def run(chk):
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(chk.seed)
    cache, jobs = {}, []
    for name in zoo.ALL:
        t = repr(traits(name))
        if t not in cache:
            cache[t] = configurations(chk, name, 1)
            if not chk.quick:
                far = configurations(chk, name, 2)
                have = [r["cfg"] for r in cache[t]]
                cache[t + "far"] = [r for r in far if r["cfg"] not in have]
        recs = cache[t]
        some = [r for r in recs if usual(name, r["cfg"])]
        if chk.quick:
            some = [some[k] for k in sorted(rng.choice(len(some), min(len(some), 9), replace=False))]
        seeds = [chk.seed] if chk.quick else [chk.seed, chk.seed + 1, chk.seed + 2]
        for s in seeds:
            use = [r for r in recs if not usual(name, r["cfg"])] + some
            if not chk.quick:
                far = cache[t + "far"]
                use = use + [far[k] for k in sorted(rng.choice(len(far), min(len(far), 12), replace=False))]
            jobs += [(name, s, r) for r in use]
    order = rng.permutation(len(jobs))

    def work(i):
        name, seed, rec = jobs[order[i]]
        try:
            with deadline(200):
                e = zoo.ALL[name](seed)
                off = settle(e, rec["cfg"])
                st, cmp = judge(name, e, rec, off)
            if st is None:
                return "open", None, None, None
            lim = limits(rec["cfg"])
            for k, v in st.items():
                if not v <= lim[k]:
                    return "answer", f"{WHAT[k]} {v:.2e}", st, cmp
            return None, None, st, cmp
        except Bad as ex:
            return "answer", str(ex), None, None
        except Exception as ex:  # noqa: BLE001
            import traceback

            return "raises", f"{type(ex).__name__}: {ex} {traceback.format_exc()[-400:]}", None, None

    got = pmap(work, len(jobs))
    ref = {}
    for i, g in zip(order, got):
        name, seed, rec = jobs[i]
        if not usual(name, rec["cfg"]):
            ref[name, seed] = g[3]
    worst, unsolved = {}, []
    for i, (clause, msg, st, cmp) in zip(order, got):
        name, seed, rec = jobs[i]
        if clause == "open":
            unsolved.append((name, seed, usual(name, rec["cfg"])))
            continue
        chk.ok()
        cfg, r = rec["cfg"], ref.get((name, seed))
        # other ways to the same solution
        if clause is None and r is not None and cfg["method"] != "qEFS" and methods(name)[0] != "qEFS" \
                and cfg["outer"] == "many" and cfg["offset"] != "rows" and not cfg["exclude"]:
            st["eta"] = max(float(np.max(np.abs(a - b) / s)) for a, b, s in zip(cmp["eta"], r["eta"], r["se"]))
            if not st["eta"] <= EXACT["eta"]:
                clause, msg = "agreement", f"{WHAT['eta']} {st['eta']:.2e}"
        for k, v in (st or {}).items():
            key = ("quasi " if cfg["method"] == "qEFS" else "") + k
            worst[key] = max(worst.get(key, 0.0), v)
        if clause:
            chk.violation(clause, f"{name} (data {seed}), options other than the usual {usual(name, cfg)}: {msg}",
                          replay={"model": name, "seed": seed, "cfg": cfg})
    chk.count("models", len(zoo.ALL))
    chk.count("not_converged", len(unsolved))
    if len(unsolved) > 0.1 * len(jobs):
        chk.violation("convergence", f"{len(unsolved)} of {len(jobs)} fits do not converge: {unsolved[:10]}")
    chk.count("configurations", len({(n, repr(r["cfg"])) for n, _, r in jobs}))
    chk.log("largest deviations:", {k: float(f"{v:.1e}") for k, v in worst.items()})
    for k in range(2):
        chk.sample({"model": jobs[k][0], "cfg": jobs[k][2]["cfg"]})
    chk.assumptions += ["model matrices and penalties of the formula are right (C06, C07)",
                        "data and smooths are moderate in size (200 to 300 rows, up to four penalties)"]
