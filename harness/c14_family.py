"""C14: families and links (spec/Family.tla; exact values and histories of use replayed on the code)."""

import copy
import itertools
import math
import warnings

import numpy as np
import scipy as scp
from scipy.special import gammainc, gammaln, log_ndtr, xlog1py, xlogy

from .c08_data import Bad, need
from .common import deadline, tla


def close(a, b, rtol, atol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            raise Bad(f"{what}: shape {a.shape}, expected {b.shape}")
    ok = (a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b)) | (np.isnan(a) & np.isnan(b))
    if not ok.all():
        k = tuple(np.argwhere(~ok)[0])
        raise Bad(f"{what}: code {a[k]:.10g}, expected {b[k]:.10g} at {list(map(int, k))}")


def d1(f, x, h):
    """Fourth order difference quotient; h: array of steps."""
    return (f(x - 2 * h) - 8 * f(x - h) + 8 * f(x + h) - f(x + 2 * h)) / (12 * h)


def d2(f, x, h):
    return (-f(x - 2 * h) + 16 * f(x - h) - 30 * f(x) + 16 * f(x + h) - f(x + 2 * h)) / (12 * h * h)


# ------------------------------------------------------------------ densities, written down independently
def lp_gau(y, mu, s):
    return -0.5 * np.log(2 * np.pi * s) - (y - mu) ** 2 / (2 * s)


def lp_gam(y, mu, s):
    a = 1 / s
    return a * np.log(a / mu) - gammaln(a) + (a - 1) * np.log(y) - a * y / mu


def lp_ig(y, mu, s):
    return -0.5 * np.log(2 * np.pi * s * y**3) - (y - mu) ** 2 / (2 * s * mu**2 * y)


def lp_poi(y, mu):
    return xlogy(y, mu) - mu - gammaln(y + 1)


def lp_bin(y, mu, n):
    k = y * n
    return gammaln(n + 1) - gammaln(k + 1) - gammaln(n - k + 1) + xlogy(k, mu) + xlog1py(n - k, -mu)


def lp_t(y, mu, th0, th1, min_df=3):
    phi, nu = np.exp(th0), np.exp(th1) + min_df
    lg = gammaln((nu + 1) / 2) - gammaln(nu / 2) if nu < 1e6 else 0.5 * np.log(nu / 2) - 1 / (4 * nu)
    return lg - np.log(phi) - 0.5 * np.log(np.pi * nu) - (nu + 1) / 2 * np.log1p(((y - mu) / phi) ** 2 / nu)


def expect(g, lp, lo, hi, points=()):
    """Expectation of g under the density exp(lp)."""
    f = lambda u: g(u) * np.exp(lp(u))
    e = sorted({lo, *[p for p in points if lo < p < hi], hi})
    tot = 0.0
    for a, b in zip(e[:-1], e[1:]):
        tot += scp.integrate.quad(f, a, b, epsabs=1e-12, epsrel=1e-10, limit=200)[0]
    return tot


# ------------------------------------------------------------------ one-parameter families
SUPPORT = {"Gaussian": (-np.inf, np.inf), "Gamma": (0, np.inf), "InvGauss": (0, np.inf)}


def col(v):
    return np.asarray(v, float).reshape(-1, 1)


class One:
    """A family of a GAMM: how to make it, data for it, and its log-density."""

    def __init__(self, name, make, draw, lp, scales=(1.0,), n=None):
        self.name, self.make, self.draw, self.lp, self.scales, self.n = name, make, draw, lp, scales, n

    def kw(self, fam, s):
        return {"scale": s} if fam.twopar else {}


def one_families(M):
    def pos(rng, N):
        return col(rng.gamma(1.5, 1.2, N) + 0.01)

    def real(rng, N):
        return col(rng.normal(size=N) * 2)

    def count(rng, N):
        return col(np.r_[0, 0, rng.poisson(3, N - 2)])

    out = []
    for link in (M.Identity, M.LOG, lambda: M.LOGb(-0.01), lambda: M.LOGb(0.5)):
        nm = link().__class__.__name__ + (str(link().b) if hasattr(link(), "b") else "")
        out.append(One("Gaussian/" + nm, lambda link=link: M.Gaussian(link()), real, lp_gau, (0.3, 1.0, 4.0)))
        out.append(One("Gamma/" + nm, lambda link=link: M.Gamma(link()), pos, lp_gam, (0.2, 1.0, 2.5)))
        out.append(One("InvGauss/" + nm, lambda link=link: M.InvGauss(link()), pos, lp_ig, (0.1, 1.0, 2.0)))
        out.append(One("Poisson/" + nm, lambda link=link: M.Poisson(link()), count, lambda y, mu, s: lp_poi(y, mu)))
    for n in (1, 4, "array"):
        def make(n=n):
            return M.Binomial(n=np.arange(1, 13).reshape(-1, 1) if n == "array" else n)

        def draw(rng, N, n=n):
            m = np.arange(1, N + 1) if n == "array" else np.full(N, n)
            k = np.array([rng.integers(0, v + 1) for v in m])
            k[0], k[1] = 0, m[1]
            return col(k / m)

        nn = np.arange(1, 13).reshape(-1, 1) if n == "array" else n
        out.append(One(f"Binomial/Logit n={n}", make, draw, lambda y, mu, s, nn=nn: lp_bin(y, mu, nn), n=nn))
    return out


def means(name, rng, N):
    if name.startswith("Binomial"):
        return col(rng.uniform(0.02, 0.98, N))
    if name.startswith("Gaussian/Identity"):
        return col(rng.normal(size=N) * 2)
    return col(np.exp(rng.normal(size=N)) + 0.05)


N1 = 12


def check_link(M, rng):
    for link, mu in ((M.Identity(), rng.normal(size=20) * 5), (M.LOG(), np.exp(rng.normal(size=20) * 3)),
                     (M.Logit(), rng.uniform(1e-4, 1 - 1e-4, 20)), (M.LOGb(-0.01), 0.011 + np.exp(rng.normal(size=20))),
                     (M.LOGb(0.5), np.exp(rng.normal(size=20)) - 0.45), (M.LOGb(-0.0001), 0.01 + np.exp(rng.normal(size=20)))):
        nm = link.__class__.__name__
        for m in (mu, col(mu)):
            h = 1e-3 * np.minimum(np.abs(m) + 1e-3, 1)
            if nm == "Logit":
                h = 1e-3 * np.minimum(m, 1 - m)
            if nm == "LOGb":
                h = 1e-3 * (m + link.b)
            keep = m.copy()
            exp = {"Identity": lambda x: x, "LOG": np.log, "Logit": lambda x: np.log(x / (1 - x)),
                   "LOGb": lambda x: np.log(x + link.b)}[nm]
            close(link.f(m), exp(m), 1e-10, 1e-12, nm + ".f")
            close(link.fi(link.f(m)), m, 1e-9, 1e-11, nm + ".fi(f(mu))")
            close(link.dy1(m), d1(exp, m, h), 1e-6, 1e-7, nm + ".dy1")
            close(link.dy2(m), d2(exp, m, h), 1e-4, 1e-4, nm + ".dy2")
            need((keep == m).all(), nm + " changed its argument")


def check_one(F, M, rng):
    fam = F.make()
    y, mu = F.draw(rng, N1), means(F.name, rng, N1)
    if "LOGb0.5" in F.name or "Identity" in F.name or "Gaussian" in F.name:
        pass
    y0, mu0 = y.copy(), mu.copy()
    h = 1e-3 * (np.minimum(mu, 1 - mu) if F.name.startswith("Binomial") else np.minimum(np.abs(mu) + 1e-3, 1))
    for s in F.scales:
        kw = F.kw(fam, s)
        lp = F.lp(y, mu, s)
        close(fam.lp(y, mu, **kw), lp, 1e-9, 1e-9, f"{F.name} lp scale={s}")
        close(fam.llk(y, mu, **kw), lp.sum(), 1e-9, 1e-9, f"{F.name} llk scale={s}")
        with np.errstate(all="ignore"):
            ysat = np.maximum(y, 1e-300) if F.name.startswith("Poisson") else y
            D = 2 * s * (F.lp(y, ysat, s) - lp)
        close(fam.D(y, mu), D, 1e-8, 1e-8, f"{F.name} D")
        close(fam.deviance(y, mu), D.sum(), 1e-8, 1e-8, f"{F.name} deviance")
    V = fam.V(mu)
    nm = F.name.split("/")[0]
    if nm in SUPPORT:
        for k in range(3):
            for s in F.scales[:2]:
                q = lambda u: F.lp(u, mu[k, 0], s)
                sd = math.sqrt(s * {"Gaussian": 1, "Gamma": mu[k, 0] ** 2, "InvGauss": mu[k, 0] ** 3}[nm])
                pts = [mu[k, 0] * c for c in (1e-3, 0.05, 0.3, 1)] if nm != "Gaussian" else [mu[k, 0]]
                pts += [mu[k, 0] + c * sd for c in (-10, -2, 2, 10, 50)]
                lo = SUPPORT[nm][0]
                var = expect(lambda u: (u - mu[k, 0]) ** 2, q, lo, np.inf, pts)
                close(s * V[k, 0], var, 1e-5, 1e-8, f"{F.name} V against the variance, scale={s}")
                close(expect(lambda u: u, q, lo, np.inf, pts), mu[k, 0], 1e-5, 1e-8, f"{F.name} mean (oracle)")
    elif nm == "Poisson":
        close(V, mu, 1e-12, 0, F.name + " V")
    else:
        close(V, mu * (1 - mu) / F.n, 1e-12, 0, F.name + " V")
    exact = {"Gaussian": lambda m: m * 0 + 1, "Gamma": lambda m: m**2, "InvGauss": lambda m: m**3,
             "Poisson": lambda m: m, "Binomial": lambda m: m * (1 - m) / (F.n if F.n is not None else 1)}[nm]
    close(V, exact(mu), 1e-10, 1e-12, F.name + " V")
    close(fam.dVy1(mu), d1(exact, mu, h), 1e-7, 1e-8, F.name + " dVy1")
    # derivatives with respect to coefficients and log scale
    X = scp.sparse.csc_array(np.c_[np.ones(N1), rng.uniform(0.1, 1, (N1, 2))])
    c = col(rng.uniform(0.1, 0.6, 3))
    if "Identity" in F.name or "LOGb0.5" in F.name:
        c = col([1.0, 0.5, 0.7])
    link = fam.link
    for s in F.scales:
        ll = lambda b: float(F.lp(y, link.fi(X @ b), s).sum())
        g = np.array([d1(lambda t: ll(c + t * e), 0.0, 1e-3) for e in np.eye(3)[:, :, None]])
        got = fam.dllkdcoef(c, y, X, s) if fam.twopar else fam.dllkdcoef(c, y, X)
        close(np.asarray(got).flatten(), g, 1e-6, 1e-6, f"{F.name} dllkdcoef scale={s}")
        if fam.twopar:
            lm = link.fi(X @ c)
            L = lambda t: float(F.lp(y, lm, np.exp(t)).sum())
            close(fam.dllkdlscale(c, y, X, s), d1(L, np.log(s), 1e-3), 1e-4, 1e-4, f"{F.name} dllkdlscale")
            close(fam.d2llkd2lscale(c, y, X, s), d2(L, np.log(s), 1e-3), 1e-3, 1e-3, f"{F.name} d2llkd2lscale")
        else:
            close(fam.dllkdlscale(c, y, X), 0, 0, 0, f"{F.name} dllkdlscale")
            close(fam.d2llkd2lscale(c, y, X), 0, 0, 0, f"{F.name} d2llkd2lscale")
    # starting means are inside the range of the mean
    m0 = np.asarray(fam.init_mu(y), float)
    need(m0.shape == y.shape, F.name + " init_mu shape")
    if nm == "Binomial":
        need((m0 > 0).all() and (m0 < 1).all(), F.name + " init_mu outside (0, 1)")
    if nm == "Poisson":
        need((m0 > 0).all(), F.name + " init_mu not positive")
    need((y == y0).all() and (mu == mu0).all(), F.name + " changed its arguments")


def check_t(M, rng, links):
    for link in links:
        fam = M.ScaledT(link())
        y = col(rng.standard_t(4, N1) * 2 + 3)
        mu = col(np.exp(rng.normal(size=N1) * 0.4) * 2)
        for th0, th1, mdf in ((0.5, 1.0, 3), (-0.7, -1.0, 3), (0.2, 10.0, 3), (0.0, 0.5, 5)):
            fam.min_df = mdf
            th = col([th0, th1])
            nm = f"ScaledT/{link().__class__.__name__} theta={th0, th1} min_df={mdf}"
            lp = lp_t(y, mu, th0, th1, mdf)
            phi, nu = math.exp(th0), math.exp(th1) + mdf
            h = col(np.full(N1, 1e-3 * phi))
            close(fam.lp(y, mu, th), lp, 1e-8, 1e-8, nm + " lp")
            close(fam.llk(y, mu, th), lp.sum(), 1e-8, 1e-8, nm + " llk")
            Dm = lambda m: 2 * (lp_t(y, y, th0, th1, mdf) - lp_t(y, m, th0, th1, mdf))
            close(fam.D(y, mu, th), Dm(mu), 1e-6, 1e-6, nm + " D")
            close(fam.deviance(y, mu, th), Dm(mu).sum(), 1e-6, 1e-6, nm + " deviance")
            close(fam.dDdmu(y, mu, th), d1(Dm, mu, h), 1e-4, 1e-5, nm + " dDdmu")
            close(fam.d2Ddmu(y, mu, th), d2(Dm, mu, 10 * h), 1e-3, 1e-3, nm + " d2Ddmu")
            # expected curvature of the deviance
            sc = lambda u: ((nu + 1) * u / (nu * phi**2 + u**2)) ** 2
            q = lambda u: lp_t(u, 0.0, th0, th1, mdf)
            info = 2 * expect(sc, q, 0, np.inf, [phi, 4 * phi, 30 * phi])
            close(fam.Ed2Ddmu(y, mu, th), np.full((N1, 1), 2 * info), 1e-6, 1e-8, nm + " Ed2Ddmu")
            var = 2 * expect(lambda u: u * u, q, 0, np.inf, [phi, 4 * phi, 30 * phi, 1000 * phi])
            close(fam.V(mu, th), np.full((N1, 1), var), 1e-4, 1e-6, nm + " V")
            close(fam.dVy1(mu, th), np.zeros((N1, 1)), 0, 1e-12, nm + " dVy1")
            L = lambda t: lp_t(y, mu, t[0], t[1], mdf).sum()
            t0 = np.array([th0, th1])
            E = np.eye(2)
            g = [d1(lambda a: L(t0 + a * E[k]), 0.0, 1e-3) for k in (0, 1)]
            close(np.asarray(fam.gradientLTheta(y, mu, th)).flatten(), g, 1e-4, 1e-4, nm + " gradientLTheta")
            H = np.array([[d1(lambda b: d1(lambda a: L(t0 + a * E[k] + b * E[j]), 0.0, 1e-2), 0.0, 1e-2)
                           for k in (0, 1)] for j in (0, 1)])
            close(np.asarray(fam.hessianLTheta(y, mu, th)), H, 1e-3, 2e-3, nm + " hessianLTheta")
            # stored parameters are the ones that are used
            fam.theta = th.copy()
            close(fam.lp(y, mu), lp, 1e-8, 1e-8, nm + " lp with stored parameters")
            close(fam.D(y, mu), Dm(mu), 1e-6, 1e-6, nm + " D with stored parameters")
            close(fam.dDdmu(y, mu), d1(Dm, mu, h), 1e-4, 1e-5, nm + " dDdmu with stored parameters")
            close(fam.V(mu), np.full((N1, 1), var), 1e-4, 1e-6, nm + " V with stored parameters")
            need((fam.theta == th).all(), nm + " changed stored parameters")


# ------------------------------------------------------------------ families with several parameters
def two_case(kind, rng, N=N1):
    if kind == "GAUMLSS":
        return col(rng.normal(size=N) * 2), [col(rng.normal(size=N)), col(np.exp(rng.normal(size=N) * 0.4))]
    return col(rng.gamma(2, 1, N) + 0.01), [col(np.exp(rng.normal(size=N) * 0.5)), col(np.exp(rng.normal(size=N) * 0.4 - 0.3))]


def two_lp(kind):
    return (lambda y, a, b: lp_gau(y, a, b * b)) if kind == "GAUMLSS" else lp_gam


def two_cdf(kind, y, a, b):
    if kind == "GAUMLSS":
        return log_ndtr((y - a) / b)
    return np.log(gammainc(1 / b, y / (a * b)))


def check_two(kind, M, rng):
    D = M.DerivOrder if hasattr(M, "DerivOrder") else __import__("mssm.src.python.custom_types", fromlist=["x"]).DerivOrder
    for links in (None, [M.LOG(), M.LOG()]):
        fam = getattr(M, kind)() if links is None else getattr(M, kind)(links)
        y, mus = two_case(kind, rng)
        keep = copy.deepcopy((y, mus))
        f = two_lp(kind)
        close(fam.lp(y, *mus), f(y, *mus), 1e-8, 1e-9, kind + " lp")
        close(fam.llk(y, *mus), f(y, *mus).sum(), 1e-8, 1e-9, kind + " llk")
        close(fam.lcp(y, *mus), two_cdf(kind, y, *mus), 1e-7, 1e-8, kind + " lcp")
        for k in (0, 1):
            h = 1e-3 * np.abs(mus[k]) + 1e-4
            g = lambda v: f(y, *[v if j == k else mus[j] for j in (0, 1)])
            close(fam.dpars(y, *mus, index=k, order=D.d1), d1(g, mus[k], h), 1e-6, 1e-6, f"{kind} first derivative {k}")
            # second derivatives are the expected ones
            got = np.broadcast_to(fam.dpars(y, *mus, index=k, order=D.d2), y.shape)
            for r in range(3):
                a, b = mus[0][r, 0], mus[1][r, 0]
                p = [a, b]

                def score(u, k=k, p=p):
                    hh = 1e-3 * abs(p[k]) + 1e-4
                    return d1(lambda v: f(u, *[v if j == k else p[j] for j in (0, 1)]), p[k], hh)

                lo = -np.inf if kind == "GAUMLSS" else 0
                sd = b if kind == "GAUMLSS" else a * math.sqrt(b)
                pts = [a + c * sd for c in (-12, -3, 0, 3, 12)] + ([] if kind == "GAUMLSS" else [a * c for c in (1e-6, 1e-3, 0.1)])
                info = expect(lambda u: score(u) ** 2, lambda u: f(u, a, b), lo, np.inf, pts)
                close(got[r, 0], -info, 2e-3, 1e-5, f"{kind} expected second derivative {k}")
        close(np.broadcast_to(fam.dpars(y, *mus, index=0, order=D.d2m), y.shape), np.zeros_like(y), 0, 1e-10, kind + " mixed derivative")
        if kind == "GAUMLSS":
            res = (y - mus[0]) / mus[1]
        else:
            with np.errstate(all="ignore"):
                res = np.sign(y - mus[0]) * np.sqrt(2 * (f(y, y, mus[1]) - f(y, *mus)))
        close(fam.get_resid(y, *mus), res, 1e-5, 1e-6, kind + " residuals")
        check_draws(fam, mus, lambda v, k: np.exp(two_cdf(kind, v, mus[0][k], mus[1][k])), kind, rng)
        need(all((a == b).all() for a, b in zip([y, *mus], [keep[0], *keep[1]])), kind + " changed its arguments")


def check_draws(fam, mus, cdf, kind, rng, size=600):
    seed = int(rng.integers(1, 1000))
    r = fam.rvs(*mus, size=size, seed=seed)
    need(r.shape == (size, len(mus[0])), f"{kind} draws have shape {r.shape}")
    need((r == fam.rvs(*mus, size=size, seed=seed)).all(), kind + " draws are not reproducible")
    need((r != fam.rvs(*mus, size=size, seed=seed + 1)).any(), kind + " draws ignore the seed")
    for k in range(len(mus[0])):
        p = scp.stats.kstest(cdf(r[:, k], k), "uniform").pvalue
        need(p > 1e-8, f"{kind} draws of element {k} do not follow the distribution (p={p:.2g})")
    u = np.array([cdf(r[:, k], k) for k in range(len(mus[0]))])
    for a, b in itertools.combinations(range(min(5, len(u))), 2):
        need(abs(np.corrcoef(u[a], u[b])[0, 1]) < 6 / math.sqrt(size), f"{kind} draws of elements {a} and {b} go together")


def check_cat(M, rec, rng, draws):
    from mssm.src.python.custom_types import DerivOrder as D

    w, T = rec["w"], rec["total"]
    K = len(w) - 1
    fam = M.MULNOMLSS(K)
    rows = list(range(K + 1)) * 2
    y = col(rows)
    scale = np.where(np.arange(len(y)) % 2, 1.0, 1.0)
    mus = [col(np.full(len(y), w[k] / w[0])) * col(scale) for k in range(1, K + 1)]
    keep = copy.deepcopy(mus)
    nm = f"MULNOMLSS weights {w}"
    close(fam.lp(y, *mus), np.log([[w[k] / T] for k in rows]), 1e-10, 1e-12, nm + " lp")
    close(fam.llk(y, *mus), sum(math.log(w[k] / T) for k in rows), 1e-10, 1e-12, nm + " llk")
    close(fam.get_probs(*mus), np.tile(np.array(w) / T, (len(y), 1)), 1e-10, 1e-12, nm + " get_probs")
    close(np.exp(fam.lcp(y, *mus)), [[rec["high"][k] / T] for k in rows], 1e-10, 1e-12, nm + " lcp")
    pair = 0
    for i in range(K):
        close(fam.dpars(y, *mus, index=i, order=D.d1), [[rec["score"][k][i] / T] for k in rows], 1e-10, 1e-12, nm + " d1")
        close(fam.dpars(y, *mus, index=i, order=D.d2), np.full(y.shape, rec["curve"][i][i] / T**2), 1e-10, 1e-12, nm + " d2")
    for i in range(K):
        for j in range(i + 1, K):
            close(fam.dpars(y, *mus, index=pair, order=D.d2m), np.full(y.shape, rec["curve"][i][j] / T**2), 1e-10, 1e-12, nm + " d2m")
            pair += 1
    need(pair == fam.n_d2m, nm + " number of mixed derivatives")
    us = []
    for s in range(3):
        u = scp.stats.norm.cdf(np.asarray(fam.get_resid(y, *mus, seed=s)))
        lo, hi = col([rec["low"][k] / T for k in rows]), col([rec["high"][k] / T for k in rows])
        need(((u >= lo - 1e-9) & (u <= hi + 1e-9)).all(), nm + " residual outside the piece of its class")
        us.append((u - lo) / (hi - lo))
    need(np.ptp(us, axis=0).max() > 1e-6, nm + " residuals ignore the seed")
    if draws:
        r = fam.rvs(*mus, size=800, seed=3)
        need(r.shape == (800, len(y)) and (r == fam.rvs(*mus, size=800, seed=3)).all(), nm + " draws not reproducible")
        cnt = np.array([(r == k).sum() for k in range(K + 1)])
        p = scp.stats.chisquare(cnt, np.array(w) / T * r.size).pvalue
        need(cnt.sum() == r.size and p > 1e-8, nm + f" draws have frequencies {cnt / r.size}")
    need(all((a == b).all() for a, b in zip(mus, keep)), nm + " changed its arguments")


def check_cat_rows(M, rng):
    """Rows with different probabilities do not mix."""
    K = int(rng.integers(1, 5))
    N = 9
    fam = M.MULNOMLSS(K)
    W = rng.gamma(2, 1, (N, K + 1)) + 0.05
    y = col(rng.integers(0, K + 1, N))
    mus = [col(W[:, k] / W[:, 0]) for k in range(1, K + 1)]
    P = W / W.sum(axis=1, keepdims=True)
    close(fam.get_probs(*mus), P, 1e-10, 1e-12, "MULNOMLSS rows get_probs")
    close(fam.lp(y, *mus).flatten(), np.log(P[np.arange(N), y.flatten().astype(int)]), 1e-10, 1e-12, "MULNOMLSS rows lp")
    o = [*range(1, K + 1), 0]
    C = np.cumsum(P[:, o], axis=1)
    pos = np.array([o.index(int(v)) for v in y.flatten()])
    close(np.exp(fam.lcp(y, *mus)).flatten(), C[np.arange(N), pos], 1e-10, 1e-12, "MULNOMLSS rows lcp")
    u = scp.stats.norm.cdf(np.asarray(fam.get_resid(y, *mus, seed=1))).flatten()
    hi = C[np.arange(N), pos]
    need(((u <= hi + 1e-9) & (u >= hi - P[np.arange(N), y.flatten().astype(int)] - 1e-9)).all(), "MULNOMLSS rows residuals")
    r = fam.rvs(*mus, size=1500, seed=5)
    for k in range(N):
        f = np.bincount(r[:, k].astype(int), minlength=K + 1)
        need(scp.stats.chisquare(f, P[k] * 1500).pvalue > 1e-8, f"MULNOMLSS draws of row {k}")
    fam2 = M.GAMLSSGSMMFamily(K, fam) if hasattr(M, "GAMLSSGSMMFamily") else None
    return fam2


def check_bin(M, rec):
    n, mu = rec["n"], rec["a"] / rec["b"]
    fam = M.Binomial(n=n)
    k = np.arange(n + 1)
    y = col(k / n)
    m = np.full(y.shape, mu)
    with np.errstate(divide="ignore"):
        close(np.exp(fam.lp(y, m)).flatten(), np.array(rec["mass"]) / rec["den"], 1e-9, 1e-12, f"Binomial n={n} mu={mu} probabilities")
    var = sum((j / n) ** 2 * v for j, v in enumerate(rec["mass"])) / rec["den"] - mu**2
    close(fam.V(m), np.full(y.shape, var), 1e-9, 1e-12, f"Binomial n={n} mu={mu} V against the variance")


def check_multi(M, rng):
    k = int(rng.integers(1, 4))
    for links in ([M.Identity() for _ in range(k)], [M.LOG() if j % 2 == 0 else M.Identity() for j in range(k)]):
        fam = M.MultiGauss(k, links)
        N = 11
        p = [int(v) for v in rng.integers(1, 4, k)]
        Xs = [scp.sparse.csc_array(rng.uniform(0.1, 1, (N, q))) for q in p]
        if k > 1 and rng.random() < 0.5:
            Xs[1], p[1] = None, p[0]
        ys = [col(rng.normal(size=N) + 1) for _ in range(k)]
        nth = k * (k + 1) // 2
        c = col(np.r_[rng.normal(size=sum(p)) * 0.5, rng.normal(size=nth) * 0.4])
        split = list(np.cumsum(p))
        nm = "MultiGauss " + "/".join(x.__class__.__name__ for x in links)
        need(fam.extra_coef == nth, nm + " number of extra coefficients")

        def parts(b):
            bs = np.split(b, split)
            mu = np.concatenate([links[j].fi((Xs[j] if Xs[j] is not None else Xs[0]) @ bs[j]) for j in range(k)], axis=1)
            R = np.zeros((k, k))
            R[np.triu_indices(k)] = bs[-1].flatten()
            for j in range(k):
                R[j, j] = np.exp(R[j, j])
            return mu, R

        Y = np.concatenate(ys, axis=1)

        def ll(b):
            mu, R = parts(b)
            e = Y - mu
            return -0.5 * ((e @ (R.T @ R)) * e).sum() + N * np.log(np.linalg.det(R))

        mu, R = parts(c)
        c2 = col(np.r_[rng.normal(size=sum(p)) * 0.5, rng.normal(size=nth) * 0.4])
        close(fam.llk(c, split, ys, Xs) - fam.llk(c2, split, ys, Xs), ll(c) - ll(c2), 1e-9, 1e-9, nm + " llk")
        E = np.eye(len(c))[:, :, None]
        g = [d1(lambda t: ll(c + t * e), 0.0, 1e-3) for e in E]
        close(np.asarray(fam.gradient(c, split, ys, Xs)).flatten(), g, 1e-5, 1e-5, nm + " gradient")
        H = np.array([[d1(lambda b: d1(lambda a: ll(c + a * e + b * f), 0.0, 1e-2), 0.0, 1e-2) for e in E] for f in E])
        for j in range(len(c)):
            close(np.asarray(fam.jcolhessian(j, c, split, ys, Xs)).flatten(), H[j], 1e-3, 1e-3 * max(1, np.abs(H).max()) * 0.1,
                  nm + f" jcolhessian column {j} ({'theta' if j >= sum(p) else 'coef'})")
        res = (Y - mu) @ R.T
        close(fam.get_resid(c, split, ys, Xs), res, 1e-10, 1e-10, nm + " residuals")
        close(fam.get_resid(c, split, ys, Xs, mean=k - 1), res[:, [k - 1]], 1e-10, 1e-10, nm + " residuals of one mean")
        r = fam.rvs(mu, np.split(c, split)[-1].flatten(), size=400, seed=4)
        need(r.shape == (400, k, N), f"{nm} draws have shape {r.shape}")
        need((r == fam.rvs(mu, np.split(c, split)[-1].flatten(), size=400, seed=4)).all(), nm + " draws are not reproducible")
        z = np.concatenate([(r[:, :, j] - mu[j]) @ R.T for j in range(N)])
        for a in range(k):
            need(scp.stats.kstest(z[:, a], "norm").pvalue > 1e-8, nm + " draws: whitened draws are not standard normal")
            for b in range(a):
                need(abs(np.corrcoef(z[:, a], z[:, b])[0, 1]) < 6 / math.sqrt(len(z)), nm + " draws: whitened draws correlate")


# ------------------------------------------------------------------ families inside a general model
def check_wrapped(M, W, rng, which):
    N = N1
    X = [scp.sparse.csc_array(np.c_[np.ones(N), rng.uniform(0.1, 1, (N, q))]) for q in (2, 1, 1)]
    if which in ("GAUMLSS", "GAMMALS"):
        fam = getattr(M, which)([M.Identity() if which == "GAUMLSS" else M.LOG(), M.LOGb(-0.01)])
        f, P = two_lp(which), 2
        y, _ = two_case(which, rng)
        lp = lambda mus: f(y, *mus)
    elif which.startswith("MULNOM"):
        P = int(which[-1])
        fam = M.MULNOMLSS(P)
        y = col(rng.integers(0, P + 1, N))
        def lp(mus):
            S = np.concatenate([np.ones((N, 1)), *mus], axis=1)
            return np.log(S[np.arange(N), y.flatten().astype(int)] / S.sum(axis=1))
    else:
        fam = {"Gaussian": M.Gaussian(), "GaussianLOG": M.Gaussian(M.LOG()), "Gamma": M.Gamma(), "Poisson": M.Poisson(), "Binomial": M.Binomial(),
               "InvGauss": M.InvGauss(), "ScaledT": M.ScaledT(), "ScaledTLOG": M.ScaledT(M.LOG())}[which]
        P = 1
        y = {"Ga": col(rng.gamma(2, 1, N)), "Po": col(rng.poisson(2, N)), "Bi": col(rng.integers(0, 2, N)), "In": col(rng.gamma(2, 1, N)),
             "Sc": col(rng.normal(size=N) + 2)}[which[:2]]
        lp = None
    G = W(P, fam)
    X = X[:P]
    links = G.links
    sizes = [x.shape[1] for x in X]
    extra = 0 if G.extra_coef is None else G.extra_coef
    want = {"Gaussian": 1, "GaussianLOG": 1, "Gamma": 1, "InvGauss": 1, "ScaledT": 2, "ScaledTLOG": 2}.get(which, 0)
    need(extra == want, f"wrapped {which}: {extra} extra coefficients")
    c = col(np.r_[rng.uniform(0.1, 0.5, sum(sizes)), rng.uniform(-0.3, 0.6, extra)])
    split = list(np.cumsum(sizes)) if extra else list(np.cumsum(sizes))[:-1]

    def ll(b):
        bs = np.split(b, np.cumsum(sizes))
        mus = [links[j].fi(X[j] @ bs[j]) for j in range(P)]
        if lp is not None:
            return float(lp(mus).sum())
        e = bs[-1].flatten()
        m = mus[0]
        return float({"Gaussian": lambda: lp_gau(y, m, np.exp(e[0])), "GaussianLOG": lambda: lp_gau(y, m, np.exp(e[0])),
                      "Gamma": lambda: lp_gam(y, m, np.exp(e[0])),
                      "InvGauss": lambda: lp_ig(y, m, np.exp(e[0])), "Poisson": lambda: lp_poi(y, m),
                      "Binomial": lambda: lp_bin(y, m, 1), "ScaledT": lambda: lp_t(y, m, e[0], e[1]),
                      "ScaledTLOG": lambda: lp_t(y, m, e[0], e[1])}[which]().sum())

    nm = "wrapped " + which
    keep = (c.copy(), y.copy())
    close(G.llk(c, split, [y] * P, X), ll(c), 1e-8, 1e-8, nm + " llk")
    E = np.eye(len(c))[:, :, None]
    g = [d1(lambda t: ll(c + t * e), 0.0, 1e-3) for e in E]
    close(np.asarray(G.gradient(c, split, [y] * P, X)).flatten(), g, 2e-5, 2e-5, nm + " gradient")
    if which.startswith("MULNOM"):  # observed and expected curvature agree
        H = np.array([[d1(lambda b: d1(lambda a: ll(c + a * e + b * f), 0.0, 1e-2), 0.0, 1e-2) for e in E] for f in E])
        close(G.hessian(c, split, [y] * P, X).toarray(), H, 1e-4, 1e-5 * np.abs(H).max(), nm + " hessian")
    bs = np.split(c, np.cumsum(sizes))
    mus = [links[j].fi(X[j] @ bs[j]) for j in range(P)]
    if which in ("GAUMLSS", "GAMMALS") or which.startswith("MULNOM"):
        r = fam.get_resid(y, *mus)
    elif which.startswith("ScaledT"):
        r = np.sign(y - mus[0]) * np.sqrt(fam.D(y, mus[0], theta=bs[-1]))
    else:
        r = np.sign(y - mus[0]) * np.sqrt(fam.D(y, mus[0]))
    close(G.get_resid(c, split, [y] * P, X), r, 1e-8, 1e-8, nm + " residuals")
    need((keep[0] == c).all() and (keep[1] == y).all(), nm + " changed its arguments")


# ------------------------------------------------------------------ histories of use
def user(M, name):
    """(make, questions: name -> f(object, case), prepare)"""
    ones = {F.name: F for F in one_families(M)}
    rng = np.random.default_rng(11)
    if name in ones:
        F = ones[name]
        data = {}
        for c in "xyz":
            y = F.draw(rng, N1)
            data[c] = (y, means(F.name, rng, N1), scp.sparse.csc_array(rng.uniform(0.1, 1, (N1, 2))), col([0.6, 0.8]))
        Q = {
            "lp": lambda f, y, mu, X, c: f.lp(y, mu, **({"scale": 0.7} if f.twopar else {})),
            "llk": lambda f, y, mu, X, c: f.llk(y, mu, **({"scale": 0.7} if f.twopar else {})),
            "D": lambda f, y, mu, X, c: f.D(y, mu), "deviance": lambda f, y, mu, X, c: f.deviance(y, mu),
            "V": lambda f, y, mu, X, c: f.V(mu), "dVy1": lambda f, y, mu, X, c: f.dVy1(mu),
            "grad": lambda f, y, mu, X, c: f.dllkdcoef(c, y, X), "link": lambda f, y, mu, X, c: f.link.dy1(mu),
            "start": lambda f, y, mu, X, c: f.init_mu(y),
        }
        return F.make, Q, data, lambda f, y, *a: f.init_mu(y)
    if name == "ScaledT":
        data = {c: (col(rng.normal(size=N1)), col(rng.normal(size=N1))) for c in "xyz"}
        Q = {q: (lambda f, y, mu, q=q: getattr(f, q)(y, mu)) for q in ("lp", "llk", "D", "deviance", "dDdmu", "d2Ddmu", "Ed2Ddmu")}
        Q["V"] = lambda f, y, mu: f.V(mu)
        Q["grad"] = lambda f, y, mu: f.gradientLTheta(y, mu, col([0.2, 0.4]))
        Q["hess"] = lambda f, y, mu: f.hessianLTheta(y, mu, col([0.2, 0.4]))
        return M.ScaledT, Q, data, lambda f, y, *a: f.init_mu(y)
    from mssm.src.python.custom_types import DerivOrder as D

    if name.startswith("MULNOM"):
        K = int(name[-1])
        make = lambda: M.MULNOMLSS(K)
        data = {c: (col(rng.integers(0, K + 1, N1)), *[col(rng.gamma(2, 1, N1)) for _ in range(K)]) for c in "xyz"}
    else:
        make = getattr(M, name)
        data = {}
        for c in "xyz":
            y, mus = two_case(name, rng)
            data[c] = (y, *mus)
    Q = {q: (lambda f, y, *m, q=q: getattr(f, q)(y, *m)) for q in ("lp", "llk", "lcp", "get_resid")}
    Q["rvs"] = lambda f, y, *m: f.rvs(*m, size=3, seed=5)
    Q["d1"] = lambda f, y, *m: f.dpars(y, *m, index=0, order=D.d1)
    Q["d2"] = lambda f, y, *m: f.dpars(y, *m, index=f.n_par - 1, order=D.d2)
    if name != "MULNOM1":
        Q["d2m"] = lambda f, y, *m: f.dpars(y, *m, index=0, order=D.d2m)
    Q["links"] = lambda f, y, *m: [f.links[j].dy1(m[j]) for j in range(f.n_par)]
    return make, Q, data, lambda f, y, *m: [f.rvs(*m, size=2, seed=1), f.get_resid(y, *m)]


def replay(M, name, log, names):
    make, Q, data, prep = user(M, name)
    objs = {}
    for r in log:
        if r["op"] == "end":
            break
        o = objs.setdefault(r["obj"], make())
        args = data[r["case"]]
        keep = copy.deepcopy(args)
        if r["op"] == "prepare":
            prep(o, *args)
        else:
            q = names[r["ask"]]
            got = np.array(Q[q](o, *args), float)
            ref = np.array(Q[q](make(), *copy.deepcopy(keep)), float)
            need(got.shape == ref.shape and np.array_equal(got, ref, equal_nan=True), f"{name}.{q} answers differently after {log}")
        for a, b in zip(args, keep):
            same = (a != b).nnz == 0 if scp.sparse.issparse(a) else np.array_equal(a, b, equal_nan=True)
            need(same, f"{name}: {r} changed its arguments")


def run(chk):
    warnings.simplefilter("ignore")
    import mssm.models as M
    from mssm.src.python.utils import GAMLSSGSMMFamily

    thorough = chk.tier == "thorough"
    mw, kk, nb = (3, 5, 5) if thorough else (3, 4, 4)
    r = chk.tlc("Family", defs={
        "Weights": "UNION {[1 .. k -> 1 .. %d] : k \\in 2 .. %d}" % (mw, kk),
        "Binomials": "{[n |-> n, a |-> a, b |-> b] : n \\in 1 .. %d, a \\in 1 .. 3, b \\in {4, 5}}" % nb,
        "Objects": "{1}", "Questions": '{"q"}', "Cases": '{"x"}'}, consts={"Depth": "0"}, spec="Spec",
        invariants=["Relations"], properties=["Pure"])
    chk.count("exact records", len(r.records))
    use = chk.tlc("Family", defs={
        "Weights": "{}", "Binomials": "{}", "Objects": "1 .. 2", "Questions": '{"q1", "q2"}', "Cases": '{"x", "y"}'},
        consts={"Depth": "4" if thorough else "3"}, spec="Spec", invariants=["Relations"], properties=["Pure"]).records

    def go(clause, rep, fn, *a):
        with chk.guard(clause, rep):
            try:
                fn(*a)
                chk.ok()
            except Bad as e:
                chk.violation(clause, str(e), rep)

    for k, rec in enumerate(r.records):
        if rec["what"] == "cat":
            go("categorical", rec, check_cat, M, rec, np.random.default_rng(k), k % 7 == 0)
        else:
            go("binomial", rec, check_bin, M, rec)
    reps = 12 if thorough else 3
    for s in range(reps):
        seed = chk.seed * 100 + s
        go("links", {"seed": seed}, check_link, M, np.random.default_rng(seed))
        for F in one_families(M):
            go("family", {"family": F.name, "seed": seed}, check_one, F, M, np.random.default_rng(seed))
        go("family", {"family": "ScaledT", "seed": seed}, check_t, M, np.random.default_rng(seed), (M.Identity, M.LOG))
        for kind in ("GAUMLSS", "GAMMALS"):
            go("distributional", {"family": kind, "seed": seed}, check_two, kind, M, np.random.default_rng(seed))
        go("categorical", {"seed": seed}, check_cat_rows, M, np.random.default_rng(seed))
        go("multivariate", {"seed": seed}, check_multi, M, np.random.default_rng(seed))
        for w in ("GAUMLSS", "GAMMALS", "MULNOM1", "MULNOM2", "MULNOM3", "Gaussian", "GaussianLOG", "Gamma", "Poisson", "Binomial", "InvGauss", "ScaledT", "ScaledTLOG"):
            go("wrapped", {"family": w, "seed": seed}, check_wrapped, M, GAMLSSGSMMFamily, np.random.default_rng(seed), w)
    names = [F.name for F in one_families(M)] + ["ScaledT", "GAUMLSS", "GAMMALS", "MULNOM1", "MULNOM3"]
    rng = np.random.default_rng(chk.seed)
    per = 150 if thorough else 40
    for name in names:
        qs = sorted(user(M, name)[1])
        for k in rng.integers(0, len(use), per):
            a, b = rng.choice(len(qs), 2, replace=False)
            nm = {"q1": qs[a], "q2": qs[b]}
            go("use", {"family": name, "log": use[k]["log"], "names": nm}, replay, M, name, use[k]["log"], nm)
            chk.count("histories of use")
    chk.sample({"cat": r.records[5], "use": use[-1]["log"]})
