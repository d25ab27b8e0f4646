"""Independent evaluation of a fitted model: likelihood, score and curvature from densities.

Nothing of the families or solvers of the code under test is used here, only the model matrices,
responses, penalty matrices and the numbers the fitted model reports.
"""

import numpy as np
import scipy as scp
from scipy.special import expit, gammaln, logsumexp


def dense(a):
    return None if a is None else a.toarray() if scp.sparse.issparse(a) else np.array(a, float)


def gauss(y, mu, v):
    return -0.5 * np.log(2 * np.pi * v) - 0.5 * (y - mu) ** 2 / v


def gamma_(y, mu, phi):
    k = 1 / phi
    return k * np.log(k / mu) + (k - 1) * np.log(y) - k * y / mu - gammaln(k)


def invgauss(y, mu, phi):
    return -0.5 * np.log(2 * np.pi * phi * y ** 3) - (y - mu) ** 2 / (2 * phi * mu ** 2 * y)


def student(y, mu, sc, nu):
    return scp.stats.t.logpdf((y - mu) / sc, nu) - np.log(sc)


def gamm_rows(name, y, eta, phi, theta, trials=None):
    """Log-density of every row given its linear predictor."""
    if name in ("gauss", "gaussfix"):
        return gauss(y, eta, phi)
    if name == "gausslog":
        return gauss(y, np.exp(eta), phi)
    if name == "binom":
        p = expit(eta)
        return y * np.log(p) + (1 - y) * np.log1p(-p)
    if name == "binomn":
        p = expit(eta)
        k = y * trials
        return (k * np.log(p) + (trials - k) * np.log1p(-p) + gammaln(trials + 1) - gammaln(k + 1)
                - gammaln(trials - k + 1))
    if name == "poisson":
        return y * eta - np.exp(eta) - gammaln(y + 1)
    if name == "gammaid":
        return gamma_(y, eta, phi)
    if name in ("gamma", "gammafix"):
        return gamma_(y, np.exp(eta), phi)
    if name == "invgauss":
        return invgauss(y, np.exp(eta), phi)
    if name == "scaledt":
        return student(y, eta, np.exp(theta[0]), np.exp(theta[1]) + 3)
    raise KeyError(name)


def lss_rows(name, y, etas):
    if name.startswith("gaumlss"):
        s = np.exp(etas[1]) + 0.01
        return gauss(y, etas[0], s ** 2)
    if name.startswith("gammals"):
        return gamma_(y, np.exp(etas[0]), np.exp(etas[1]) + 0.01)
    if name.startswith("mulnom"):
        E = np.stack([np.zeros_like(etas[0])] + list(etas), 1)
        lp = E - logsumexp(E, axis=1, keepdims=True)
        return lp[np.arange(len(y)), y.astype(int)]
    raise KeyError(name)


def lss_expected(name, y, etas):
    """Second derivatives with respect to predictors if those with respect to parameters are expected."""
    if name.startswith("mulnom"):
        return None
    m, b = etas
    if name.startswith("gaumlss"):
        s, e = np.exp(b) + 0.01, np.exp(b)
        d1 = ((y - m) ** 2 - s ** 2) / s ** 3
        return -1 / s ** 2, -2 / s ** 2 * e ** 2 + d1 * e
    if name.startswith("gammals"):
        mu, f, e = np.exp(m), np.exp(b) + 0.01, np.exp(b)
        d1m = (y - mu) / (f * mu ** 2)
        d1f = (y / mu - np.log(y) + np.log(mu) + np.log(f) - 1 + scp.special.digamma(1 / f)) / f ** 2
        d2f = 1 / f ** 3 - scp.special.polygamma(1, 1 / f) / f ** 4
        return -1 / f + d1m * mu, d2f * e ** 2 + d1f * e
    return None


class Fit:
    def __init__(self, name, m, offset=0.0):
        from mssm.models import GAMM, GAMMLSS

        self.name, self.m = name, m
        self.base = name.split("_")[0]
        self.gamm = isinstance(m, GAMM)
        self.lss = isinstance(m, GAMMLSS) and not self.gamm
        self.b = np.array(m.coef, float).ravel()
        self.offset = np.ravel(offset)
        if self.gamm:
            self.X = [dense(m.get_mmat())]
        else:
            self.X = [dense(x) for x in m.get_mmat()]
        self.y = [np.array(v, float).ravel() for v in (m.get_ys() if isinstance(m.get_ys(), list) else [m.get_ys()])
                  if v is not None]
        n = len(self.b)
        self.n = n
        self.parts = [dense(p.S_J_emb) for p in m.overall_penalties]
        self.lam = np.array([p.lam for p in m.overall_penalties], float)
        self.S = sum((l * P for l, P in zip(self.lam, self.parts)), np.zeros((n, n)))
        self.phi = float(m.scale) if self.gamm else 1.0
        self.theta = None
        self.trials = np.ravel(m.family.n) if self.base == "binomn" else None
        if self.base == "scaledt":
            self.theta = np.ravel(m.family.theta)
        self.keep = np.ones(n, bool)
        if m.info.dropped is not None:
            self.keep[np.asarray(m.info.dropped, int)] = False
        self.ends = np.cumsum([x.shape[1] for x in self.X])

    def split(self, b):
        return np.split(b, self.ends)[: len(self.X)]

    def etas(self, b):
        e = [x @ c for x, c in zip(self.X, self.split(b))]
        if self.gamm:
            e[0] = e[0] + self.offset
        return e

    def rows(self, etas, b=None):
        if self.gamm:
            return gamm_rows(self.base, self.y[0], etas[0], self.phi, self.theta, self.trials)
        return lss_rows(self.base, self.y[0], etas)

    def llk(self, b=None):
        b = self.b if b is None else b
        if self.gamm or self.lss:
            return float(self.rows(self.etas(b)).sum())
        if self.base.startswith("multigauss"):
            k = len(self.X)
            th = b[self.ends[-1]:]
            R = np.zeros((k, k))
            c = 0
            for i in range(k):
                for j in range(i, k):
                    R[i, j] = np.exp(th[c]) if i == j else th[c]
                    c += 1
            E = np.stack([y - e for y, e in zip(self.y, self.etas(b))], 0)
            return float(-0.5 * ((R @ E) ** 2).sum() + E.shape[1] * np.log(np.diag(R)).sum()
                         - 0.5 * k * E.shape[1] * np.log(2 * np.pi))
        # proportional hazards: rows are in order of decreasing time
        e = self.etas(b)[0]
        fam = self.m.family
        t = np.asarray(fam._vp_time)
        out = 0.0
        for i in np.where(self.y[0] == 1)[0]:
            out += e[i] - logsumexp(e[t >= t[i]])
        return float(out)

    def score(self):
        if self.gamm or self.lss:
            e = self.etas(self.b)
            g = []
            for p in range(len(e)):
                h = 1e-5 * (1 + np.abs(e[p]))
                up, dn = list(e), list(e)
                up[p], dn[p] = e[p] + h, e[p] - h
                g.append(self.X[p].T @ ((self.rows(up) - self.rows(dn)) / (2 * h)))
            return np.concatenate(g)
        g = np.zeros(self.n)
        for j in range(self.n):
            h = 1e-5 * (1 + abs(self.b[j]))
            u, d = self.b.copy(), self.b.copy()
            u[j] += h
            d[j] -= h
            g[j] = (self.llk(u) - self.llk(d)) / (2 * h)
        return g

    def curvature(self):
        """Observed second derivative of the log-likelihood, negated."""
        if self.gamm or self.lss:
            e = self.etas(self.b)
            H = np.zeros((self.n, self.n))
            st = np.r_[0, self.ends]
            for p in range(len(e)):
                for q in range(p, len(e)):
                    hp, hq = (2e-4 * (1 + np.abs(e[k])) for k in (p, q))

                    def at(a, c):
                        v = list(e)
                        v[p] = v[p] + a * hp
                        v[q] = v[q] + c * hq
                        return self.rows(v)
                    if p == q:
                        w = (at(1, 0) - 2 * at(0, 0) + at(-1, 0)) / hp ** 2
                    else:
                        w = (at(1, 1) - at(1, -1) - at(-1, 1) + at(-1, -1)) / (4 * hp * hq)
                    B = -(self.X[p].T @ (w[:, None] * self.X[q]))
                    H[st[p]:st[p + 1], st[q]:st[q + 1]] = B
                    H[st[q]:st[q + 1], st[p]:st[p + 1]] = B.T
            return H
        H = np.zeros((self.n, self.n))
        h = 1e-3 * (1 + np.abs(self.b))
        f0 = self.llk()

        def at(j, a, k, c):
            v = self.b.copy()
            v[j] += a * h[j]
            v[k] += c * h[k]
            return self.llk(v)
        for j in range(self.n):
            for k in range(j, self.n):
                if j == k:
                    v = (at(j, 1, k, 0) - 2 * f0 + at(j, -1, k, 0)) / h[j] ** 2
                else:
                    v = (at(j, 1, k, 1) - at(j, 1, k, -1) - at(j, -1, k, 1) + at(j, -1, k, -1)) / (4 * h[j] * h[k])
                H[j, k] = H[k, j] = -v
        return H

    def expected(self):
        """The same with expected second derivatives of parameters (None where these do not differ)."""
        if not self.lss:
            return None
        e = self.etas(self.b)
        w = lss_expected(self.base, self.y[0], e) if len(e) == 2 else None
        if w is None:
            return None
        return scp.linalg.block_diag(*[-(x.T @ (v[:, None] * x)) for x, v in zip(self.X, w)])

    def mean(self, eta):
        if self.base in ("gauss", "gaussfix", "gammaid", "scaledt"):
            return eta
        return expit(eta) if self.base.startswith("binom") else np.exp(eta)

    def variance(self, mu):
        """Variance function of the family."""
        return {"gauss": 1 + 0 * mu, "gaussfix": 1 + 0 * mu, "gausslog": 1 + 0 * mu,
                "binom": mu * (1 - mu), "binomn": mu * (1 - mu) / (1 if self.trials is None else self.trials),
                "poisson": mu, "gamma": mu ** 2, "gammafix": mu ** 2, "gammaid": mu ** 2,
                "invgauss": mu ** 3}[self.base]

    def fisher(self):
        """Expected curvature of a generalised model."""
        eta = self.etas(self.b)[0]
        if self.base == "scaledt":
            nu = np.exp(self.theta[1]) + 3
            return (nu + 1) / (nu + 3) / np.exp(2 * self.theta[0]) * (self.X[0].T @ self.X[0])
        mu = self.mean(eta)
        h = 1e-6 * (1 + np.abs(eta))
        d = (self.mean(eta + h) - self.mean(eta - h)) / (2 * h)
        w = d ** 2 / self.variance(mu) / self.phi
        return self.X[0].T @ (w[:, None] * self.X[0])

    def blocks(self):
        """Penalty of every block of coefficients in the span of the penalties of the block."""
        S = self.S / self.phi
        # the span does not depend on the weights of the penalties; blocks do not overlap
        N = sum((P / max(np.abs(P).max(), 1e-300) for P in self.parts), np.zeros((self.n, self.n)))
        r, lab = scp.sparse.csgraph.connected_components(scp.sparse.csr_array(np.abs(N) > 0))
        for c in range(r):
            ix = np.where(lab == c)[0]
            B = S[np.ix_(ix, ix)]
            if not np.any(B):
                continue
            e, U = np.linalg.eigh(N[np.ix_(ix, ix)])
            U = U[:, e > 1e-9 * e.max()]
            C = U.T @ B @ U
            d = np.sqrt(np.abs(np.diag(C)))
            yield ix, U, C / np.outer(d, d), d

    def reml(self, H=None):
        H = -dense(self.m.hessian) if H is None else H
        S = self.S / self.phi
        k = np.ix_(self.keep, self.keep)
        ld = 0.0
        rank = 0
        for _, U, C, d in self.blocks():
            ld += np.linalg.slogdet(C)[1] + 2 * np.log(d).sum()
            rank += U.shape[1]
        A = (H + S)[k]
        return float(self.llk() - 0.5 * self.b @ S @ self.b + 0.5 * ld - 0.5 * np.linalg.slogdet(A)[1]
                     + 0.5 * (self.keep.sum() - rank) * np.log(2 * np.pi))

    def slopes(self):
        """Derivative of the criterion with respect to the logarithm of the smoothing parameters."""
        V = self.V()
        inv = [(ix, U, np.linalg.inv(C), d) for ix, U, C, d in self.blocks()]
        out = []
        for l, P in zip(self.lam, self.parts):
            Q = l * P / self.phi
            t = 0.0
            for ix, U, Ci, d in inv:
                t += float(np.sum(Ci * (U.T @ Q[np.ix_(ix, ix)] @ U) / np.outer(d, d)))
            out.append(0.5 * (t - float(np.sum(V * Q)) - self.b @ Q @ self.b))
        return np.array(out)

    def terms(self):
        """Effective degrees of freedom per penalised block of coefficients, in order."""
        V = self.V()
        blocks = {}
        for p in self.m.overall_penalties:
            if isinstance(p.S_Js, list):
                one = list(zip(p.start_indices, p.S_Js, p.rep_sjs, p.S_J_embs))
            else:
                one = [(p.start_index, p.S_J, p.rep_sj, p.S_J_emb)]
            for at, sj, rep, emb in one:
                blocks.setdefault(at, [sj.shape[1] * rep, 0.0])
                blocks[at][1] += p.lam * float(np.sum(dense(emb) * V)) / self.phi
        return [a - b for _, (a, b) in sorted(blocks.items())]

    def V(self):
        A = -dense(self.m.hessian) + self.S / self.phi
        V = np.zeros((self.n, self.n))
        k = np.ix_(self.keep, self.keep)
        V[k] = np.linalg.inv(A[k])
        return V

    def decrement(self):
        """What a Newton step could still gain in penalised log-likelihood."""
        g = self.score() - self.S @ self.b / self.phi
        g[~self.keep] = 0
        return float(0.5 * g @ self.V() @ g)
