"""Random HSMM instances, their exact (path-enumeration) semantics, and the real HSMMFamily.

Path structure comes from the histories TLC generated from HSMM.tla; the numeric value of every
factor is computed here from the documented densities, never by calling the code under test.
"""

import numpy as np
import scipy as scp
from scipy.special import logsumexp

from .common import tla_set

B_LOGB = -0.0001


def flag_configs(ns_list, nt_list, d_list, hmp=False, ws=(2,), swfs=(False, True)):
    out = []
    for ns in ns_list:
        for nt in nt_list:
            for D in d_list:
                for swf in swfs:
                    if hmp and not swf:
                        continue
                    for ewl in (False, True):
                        for eil in (False, True):
                            for w in ws if hmp else (0,):
                                if hmp and w > D - 1:
                                    continue
                                out.append(
                                    dict(
                                        ns=ns,
                                        nt=nt,
                                        D=D,
                                        swf=swf,
                                        ewl=ewl,
                                        eil=eil,
                                        hmp=hmp,
                                        w=w,
                                    )
                                )
    return out


def key(c):
    return tuple(c[k] for k in ("ns", "nt", "D", "swf", "ewl", "eil", "hmp", "w"))


INVS = ["TypeOK", "FactorCounts", "DurationsHonoured", "NoSelfSwitch", "BumpWidth"]


def histories(chk, cfgs):
    """Run TLC on HSMM.tla and return {key: PathSet}."""
    cfgs = [dict(id=i, **c) for i, c in enumerate(cfgs)]
    r = chk.tlc(
        "HSMM",
        defs={"Configs": tla_set(cfgs)},
        invariants=INVS + ["Accumulate", "Emit"],
        postcondition="ForwardEqualsPathSum",
        extra_body="ASSUME RegInit",
    )
    by = {}
    for rec in r.records:
        by.setdefault(rec["cfg"]["id"], []).append(rec)
    return {key(c): PathSet(c, by.get(c["id"], [])) for c in cfgs}


class PathSet:
    """All admissible histories of one configuration, as index arrays into a factor vector."""

    def __init__(self, cfg, recs):
        self.cfg = cfg
        ns, nt, D, w = cfg["ns"], cfg["nt"], cfg["D"], max(cfg["w"], 2)
        self.K = ns if cfg["swf"] else 2 * ns
        self.P = w
        self.o_pi = 0
        self.o_T = self.o_pi + ns
        self.o_d = self.o_T + ns * ns * nt
        self.o_b = self.o_d + self.K * (D - 1) * nt
        self.n = self.o_b + nt * self.P * ns
        rows = []
        self.states = []
        self.rems = []
        self.segs = []
        for r in recs:
            idx = []
            for f in r["fac"]:
                k = f["k"]
                if k == "pi":
                    idx.append(self.o_pi + f["j"])
                elif k == "T":
                    idx.append(self.o_T + (f["i"] * ns + f["j"]) * nt + f["t"])
                elif k == "d":
                    idx.append(self.o_d + (f["j"] * (D - 1) + f["d"] - 1) * nt + f["t"])
                else:
                    idx.append(self.o_b + (f["t"] * self.P + f["p"]) * ns + f["j"])
            rows.append(idx)
            st = np.zeros(nt, dtype=int)
            for si, s in enumerate(r["segs"]):
                e = r["segs"][si + 1]["t0"] if si + 1 < len(r["segs"]) else nt
                st[s["t0"] : e] = s["j"]
            self.states.append(tuple(int(x) for x in st))
            self.rems.append(r["rem"])
            self.segs.append(r["segs"])
        m = max((len(x) for x in rows), default=1)
        self.idx = np.full((len(rows), m), self.n, dtype=int)
        for i, x in enumerate(rows):
            self.idx[i, : len(x)] = x

    def logw(self, lpi, lT, ld, lb):
        """lpi (ns,), lT (ns,ns,nt), ld (K,D-1,nt), lb (nt,P,ns) -> log weight per history."""
        v = np.concatenate([lpi.ravel(), lT.ravel(), ld.ravel(), lb.ravel(), [0.0]])
        assert len(v) == self.n + 1
        return v[self.idx].sum(axis=1) if len(self.idx) else np.array([])


class Instance:
    """One HSMM model + data set.

    spec: dict(ns, D, swf, ewl, eil, M, obs, tv, fix, nts, hmp, w, hmp_fam, rho, shared, shared_m,
               p (columns per formula), nones)
    """

    def __init__(self, spec, rng):
        self.s = s = dict(spec)
        self.use_known_signals = False
        ns, M, nts = s["ns"], s["M"], s["nts"]
        self.ns, self.M, self.nts, self.D = ns, M, nts, s["D"]
        self.nser = len(nts)
        N = sum(nts)
        self.N = N
        self.sid = np.concatenate([[0], np.cumsum(nts)[:-1]]).astype(int)
        self.tv = s["tv"]
        self.tid = self.sid.copy() if self.tv else np.arange(self.nser)
        self.hmp = s["hmp"]
        self.K = ns if s["swf"] else 2 * ns
        p = s.get("p", 2)

        positive = s["obs"] in ("gam", "mixed")
        self.Y = rng.normal(size=(N, M)) * 1.2
        if positive:
            self.Y = np.abs(self.Y) + 0.2
        self.rho = s.get("rho")
        self.template = None
        if self.hmp:
            self.template = np.round(rng.uniform(0.3, 1.2, size=s["w"]), 3)
        self.scale = 0.8 if self.hmp else None

        # ---- formulas: (kind, meta, X, y)
        self.forms = []

        pool = {}

        def design(rows):
            if s.get("nones") and rows in pool and rng.uniform() < 0.5:
                return pool[rows][int(rng.integers(len(pool[rows])))]
            X = rng.normal(size=(rows, p)) * 0.6
            X[:, 0] = 1
            pool.setdefault(rows, []).append(X)
            return X

        self.design = design
        shared = s.get("shared", [])
        self.shared = shared
        self.shared_m = s.get("shared_m", False)
        for par in shared:
            for m in range(1 if self.shared_m else M):
                X = rng.normal(size=(N, 1)) * 0.7
                self.forms.append(("sh", (par, m), X, self.Y[:, [m]], rng.normal(size=1) * 0.5))
        # observation families per state/signal
        self.obs = []
        for j in range(ns):
            if self.hmp:
                self.obs.append(["hmp"] * M)
                if j % 2 == 1:
                    for m in range(M):
                        X = design(N)
                        self.forms.append(
                            ("o", (j, m, 0), X, self.Y[:, [m]], rng.normal(size=p) * 0.9)
                        )
            elif s["obs"] == "mvn":
                self.obs.append(["mvn"])
                for m in range(M):
                    self.forms.append(
                        ("o", (j, m, 0), design(N), self.Y[:, [m]], rng.normal(size=p))
                    )
            else:
                row = []
                for m in range(M):
                    fam = {"gau": "gau", "gam": "gam"}.get(s["obs"])
                    if fam is None:
                        fam = "gau" if (j + m) % 2 == 0 else "gam"
                    row.append(fam)
                    for par in range(2):
                        c = rng.normal(size=p) * (0.8 if par == 0 else 0.3)
                        if par == 1:
                            c[0] -= 0.2
                        self.forms.append(("o", (j, m, par), design(N), self.Y[:, [m]], c))
                self.obs.append(row)
        drows = N if self.tv else self.nser
        pseudo = np.ones((drows, 1))
        self.dfam = []
        for k in range(self.K):
            if self.hmp and k % 2 == 1:
                self.dfam.append(None)
                continue
            fam = "gau" if (s.get("dmix") and k % 2 == 1) else "gam"
            self.dfam.append(fam)
            for par in range(2):
                c = rng.normal(size=p) * (0.5 if par == 0 else 0.3)
                c[0] += 0.5 if par == 0 else -0.7
                self.forms.append(("d", (k, par), design(drows), pseudo, c))
        self.fix = s["fix"]
        if self.fix == "none":
            if ns > 2:
                for j in range(ns):
                    for q in range(ns - 2):
                        self.forms.append(
                            ("T", (j, q), design(drows), pseudo, rng.normal(size=p) * 0.8)
                        )
            for q in range(ns - 1):
                self.forms.append(
                    ("pi", (q,), design(drows), pseudo, rng.normal(size=p) * 0.7)
                )
            self.Tfix = self.pifix = None
        else:
            self.Tfix, self.pifix = [], []
            for si in range(self.nser):
                if self.hmp and s.get("ltr", True):
                    T = np.diag(np.ones(ns - 1), 1)
                    pi = np.zeros(ns)
                    pi[0] = 1.0
                else:
                    T = rng.uniform(0.1, 1, size=(ns, ns))
                    np.fill_diagonal(T, 0)
                    T /= T.sum(axis=1, keepdims=True)
                    pi = rng.uniform(0.1, 1, size=ns)
                    pi /= pi.sum()
                if self.tv:
                    Ts = np.zeros((ns, ns, nts[si]), order="F")
                    for t in range(nts[si]):
                        A = T * rng.uniform(0.2, 1, size=(ns, ns))
                        sm = A.sum(axis=1, keepdims=True)
                        Ts[:, :, t] = np.divide(A, sm, out=np.zeros_like(A), where=sm > 0)
                    T = Ts
                self.Tfix.append(T)
                self.pifix.append(pi)
            if self.fix == "one":
                self.Tfix = [self.Tfix[0]] * self.nser
                self.pifix = [self.pifix[0]] * self.nser
        self.theta = []
        if s["obs"] == "mvn":
            for j in range(ns):
                th = rng.normal(size=M * (M + 1) // 2) * 0.4
                self.theta.append(th)
        self.coefs = [f[4] for f in self.forms]
        self.ncoef = [len(c) for c in self.coefs]
        self.coef = np.concatenate(self.coefs + [t for t in self.theta])
        self.split = np.cumsum(self.ncoef).tolist()
        self.Y_obs = self.Y

    # ------------------------------------------------------------------ real objects
    def ar_matrix(self):
        """Inverse transpose of the AR1 Cholesky, built from its definition."""
        rho = self.rho
        d0 = 1 / np.sqrt(1 - rho**2)
        d1 = -rho / np.sqrt(1 - rho**2)
        A = np.zeros((self.N, self.N))
        for si, st in enumerate(self.sid):
            for t in range(self.nts[si]):
                r = st + t
                if t == 0:
                    A[r, r] = 1
                else:
                    A[r, r] = d0
                    A[r - 1, r] = d1
        return A

    def real(self, n_cores=1, only=None):
        """Real family and arguments; ``only``: data set consisting of that series alone."""
        import mssm.models as mm
        from mssm.src.python.hsmm import HSMMFamily

        s = self.s

        def fam(f):
            if f == "gau":
                return mm.GAUMLSS([mm.Identity(), mm.LOGb(B_LOGB)])
            if f == "gam":
                return mm.GAMMALS([mm.LOG(), mm.LOGb(B_LOGB)])
            if f == "mvn":
                return mm.MultiGauss(self.M, [mm.Identity() for _ in range(self.M)])
            return None

        obs = [[fam(f) for f in row] for row in self.obs]
        dfs = [fam(f) if f is not None else None for f in self.dfam]
        links = [mm.Identity() for _ in self.forms]
        build_idx = list(range(len(self.forms)))
        Xs = [scp.sparse.csc_array(f[2]) for f in self.forms]
        ys = [f[3].copy() for f in self.forms]
        if s.get("nones"):
            # formulas with an identical design as an earlier one need not be built; identical
            # response as the first formula may be None
            for i in range(1, len(self.forms)):
                for k in range(i):
                    if Xs[k] is not None and np.array_equal(
                        self.forms[i][2], self.forms[k][2]
                    ):
                        Xs[i] = None
                        build_idx[i] = k
                        break
                if self.forms[i][0] == "o" and np.array_equal(
                    self.forms[i][3], self.forms[0][3]
                ):
                    ys[i] = None
        if self.Tfix is None:
            T = pi = None
        elif self.fix == "one":
            T, pi = self.Tfix[0], self.pifix[0]
        else:
            T, pi = list(self.Tfix), list(self.pifix)
        Lrhoi = scp.sparse.csc_array(self.ar_matrix()) if self.rho is not None else None
        sid, tid = self.sid.copy(), self.tid.copy()
        if only is not None:
            a, b = self.sid[only], self.sid[only] + self.nts[only]
            for i, f in enumerate(self.forms):
                lo, hi = (a, b) if f[0] in ("sh", "o") or self.tv else (only, only + 1)
                Xs[i] = None if Xs[i] is None else scp.sparse.csc_array(f[2][lo:hi])
                ys[i] = None if ys[i] is None else ys[i][lo:hi]
            if isinstance(T, list):
                T, pi = [T[only]], [pi[only]]
            if Lrhoi is not None:
                Lrhoi = scp.sparse.csc_array(self.ar_matrix()[a:b, a:b])
            sid = tid = np.array([0])
        F = HSMMFamily(
            len(self.forms),
            links,
            self.ns,
            obs,
            dfs,
            sid,
            tid,
            self.D,
            self.M,
            s["swf"],
            s["ewl"],
            s["eil"],
            n_cores=n_cores,
            build_mat_idx=build_idx,
            shared_pars=list(self.shared),
            shared_m=self.shared_m,
            T=T,
            pi=pi,
            Lrhoi=Lrhoi,
            scale=self.scale,
            event_template=self.template,
            hmp_fam=s.get("hmp_fam", "Gaussian"),
            tvdtpi=self.tv,
        )
        return F, (self.coef.reshape(-1, 1), list(self.split), ys, Xs)

    # ------------------------------------------------------------------ exact semantics
    def unpack(self, coef):
        parts = np.split(coef, self.split)
        return parts[:-1], parts[-1]

    def known_signals(self):
        """Signals an HMP-like model with shared coefficients reads on the unchanged tree (known
        finding hmp-shared-signals): the first M entries of the list of responses, in which shared
        formulas other than the first are replaced by the first signal."""
        lst = []
        for kind, meta, X, y, _ in self.forms:
            if kind == "sh":
                lst.append(self.Y[:, 0])
            elif kind == "o":
                lst.append(y[:, 0])
        return np.stack(lst[: self.M], axis=1)

    def hits_known_signals(self):
        return bool(self.hmp and self.shared and self.M > 1)

    def factors(self, coef=None, cdf=False):
        """Per series (lpi, lT, ld, lb[, extra]) log factors from first principles."""
        coef = self.coef if coef is None else coef
        parts, theta = self.unpack(coef)
        s, ns, M = self.s, self.ns, self.M
        eta = {}
        sh = {}
        for (kind, meta, X, y, _), c in zip(self.forms, parts):
            e = X @ c
            if kind == "sh":
                sh[meta] = e
            else:
                eta[(kind,) + meta] = e

        def shared_eta(par, m):
            if par not in self.shared:
                return 0.0
            return sh[(par, 0)] if self.shared_m else sh[(par, m)]

        Y = self.known_signals() if self.use_known_signals else self.Y
        if self.rho is not None:
            Y = self.ar_matrix().T @ Y
        P = max(s["w"], 2)
        out = []
        for si in range(self.nser):
            n = self.nts[si]
            sl = slice(self.sid[si], self.sid[si] + n)
            lb = np.full((n, P, ns), -np.inf)
            mean = np.zeros((n, P, ns, M))
            lcdf = np.full((n, P, ns, M), -np.inf)
            if self.hmp:
                d0 = d1 = None
                if self.rho is not None:
                    d0 = 1 / np.sqrt(1 - self.rho**2)
                    d1 = -self.rho / np.sqrt(1 - self.rho**2)
                mus = np.zeros((n, M, ns))
                for j in range(1, ns, 2):
                    for m in range(M):
                        mus[:, m, j] = eta[("o", j, m, 0)][sl] + (
                            shared_eta(0, m)[sl] if 0 in self.shared else 0
                        )

                def dens(y, mu):
                    if s.get("hmp_fam", "Gaussian") == "Gaussian":
                        return (
                            scp.stats.norm.logpdf(y, mu, np.sqrt(self.scale)),
                            scp.stats.norm.logcdf(y, mu, np.sqrt(self.scale)),
                        )
                    return (
                        scp.stats.expon.logpdf((y - mu) ** 2, scale=self.scale),
                        scp.stats.expon.logcdf((y - mu) ** 2, scale=self.scale),
                    )

                for j in range(ns):
                    for pos in range(P if j % 2 else 2):
                        tot = np.zeros(n)
                        for m in range(M):
                            if j % 2:
                                if pos >= s["w"]:
                                    tot = np.full(n, -np.inf)
                                    continue
                                mu = self.template[pos] * mus[:, m, j]
                                if self.rho is not None:
                                    mu = d0 * mu
                                    if pos > 0:
                                        prev = np.concatenate([[0], mus[:-1, m, j]])
                                        mu = mu + d1 * self.template[pos - 1] * prev
                            else:
                                mu = np.zeros(n)
                                if pos == 1 and self.rho is not None and j > 0:
                                    prev = np.concatenate([[0], mus[:-1, m, j - 1]])
                                    mu = d1 * self.template[-1] * prev
                            l, c = dens(Y[sl, m], mu)
                            tot = tot + l
                            mean[:, pos, j, m] = mu
                            lcdf[:, pos, j, m] = c
                        lb[:, pos, j] = tot
            else:
                for j in range(ns):
                    if self.obs[j][0] == "mvn":
                        k = M * (M + 1) // 2
                        th = theta[j * k : (j + 1) * k]
                        R = np.zeros((M, M))
                        q = 0
                        for a in range(M):
                            for b in range(a, M):
                                R[a, b] = np.exp(th[q]) if a == b else th[q]
                                q += 1
                        mu = np.stack(
                            [
                                eta[("o", j, m, 0)][sl]
                                + (shared_eta(0, m)[sl] if 0 in self.shared else 0)
                                for m in range(M)
                            ],
                            axis=1,
                        )
                        z = (Y[sl] - mu) @ R.T
                        l = -0.5 * (z**2).sum(axis=1) + np.log(np.diag(R)).sum()
                        lb[:, 0, j] = l
                        mean[:, 0, j, :] = mu
                        lcdf[:, 0, j, :] = scp.stats.norm.logcdf(z)
                    else:
                        tot = np.zeros(n)
                        for m in range(M):
                            e0 = eta[("o", j, m, 0)][sl] + (
                                shared_eta(0, m)[sl] if 0 in self.shared else 0
                            )
                            e1 = eta[("o", j, m, 1)][sl] + (
                                shared_eta(1, m)[sl] if 1 in self.shared else 0
                            )
                            y = Y[sl, m]
                            sc = np.exp(e1) - B_LOGB
                            if self.obs[j][m] == "gau":
                                mu = e0
                                l = scp.stats.norm.logpdf(y, mu, sc)
                                c = scp.stats.norm.logcdf(y, mu, sc)
                            else:
                                mu = np.exp(e0)
                                l = scp.stats.gamma.logpdf(y, 1 / sc, scale=mu * sc)
                                c = scp.stats.gamma.logcdf(y, 1 / sc, scale=mu * sc)
                            tot = tot + l
                            mean[:, 0, j, m] = mu
                            lcdf[:, 0, j, m] = c
                        lb[:, 0, j] = tot
            # durations
            dv = np.arange(1, self.D, dtype=float)
            ld = np.zeros((self.K, self.D - 1, n))
            for k in range(self.K):
                if self.dfam[k] is None:
                    ld[k] = -np.inf
                    ld[k, s["w"] - 1, :] = 0
                    continue
                e0 = eta[("d", k, 0)]
                e1 = eta[("d", k, 1)]
                rows = range(self.sid[si], self.sid[si] + n) if self.tv else [si] * n
                for t, r in enumerate(rows):
                    sc = np.exp(e1[r]) - B_LOGB
                    if self.dfam[k] == "gam":
                        l = scp.stats.gamma.logpdf(dv, 1 / sc, scale=np.exp(e0[r]) * sc)
                    else:
                        l = scp.stats.norm.logpdf(dv, e0[r], sc)
                    ld[k, :, t] = l - logsumexp(l)
                    if not self.tv:
                        ld[k] = ld[k, :, [0]].T
                        break
            # transitions / initial
            lT = np.full((ns, ns, n), -np.inf)
            with np.errstate(divide="ignore"):
                if self.Tfix is not None:
                    T = np.asarray(self.Tfix[si])
                    lT = np.log(T if T.ndim == 3 else np.repeat(T[:, :, None], n, axis=2))
                    lpi = np.log(np.asarray(self.pifix[si]))
                else:
                    for t in range(n):
                        r = self.sid[si] + t if self.tv else si
                        for j in range(ns):
                            to = [i for i in range(ns) if i != j]
                            ee = np.array(
                                [0.0] + [eta[("T", j, q)][r] for q in range(ns - 2)]
                            )
                            lT[j, to, t] = ee - logsumexp(ee)
                    r = self.tid[si]
                    ee = np.array([0.0] + [eta[("pi", q)][r] for q in range(ns - 1)])
                    lpi = ee - logsumexp(ee)
            res = (lpi, lT, ld, lb)
            out.append(res + (mean, lcdf) if cdf else res)
        return out

    def cfg(self, si, **over):
        s = self.s
        c = dict(
            ns=self.ns,
            nt=self.nts[si],
            D=self.D,
            swf=s["swf"],
            ewl=s["ewl"],
            eil=s["eil"],
            hmp=self.hmp,
            w=s["w"],
        )
        c.update(over)
        return c

    def paths(self, hist, si):
        return hist[key(self.cfg(si))]

    def logws(self, hist, coef=None):
        return [
            self.paths(hist, si).logw(*f) for si, f in enumerate(self.factors(coef))
        ]

    def llk(self, hist, coef=None):
        tot = 0.0
        for lw in self.logws(hist, coef):
            tot += logsumexp(lw) if len(lw) else -np.inf
        if self.rho is not None:
            d0 = np.diag(self.ar_matrix())
            tot += self.M * np.log(d0[d0 != 1]).sum()
        return tot

    def grad(self, hist, h=1e-5):
        g = np.zeros(len(self.coef))
        for i in range(len(g)):
            c = self.coef.copy()
            v = []
            for m in (-2, -1, 1, 2):
                c[i] = self.coef[i] + m * h
                v.append(self.llk(hist, c))
            g[i] = (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h)
        return g

    def describe(self):
        return {k: v for k, v in self.s.items()}


# ---------------------------------------------------------------------------- dynamic programme
def dp(cfg, fac, mode):
    """The recursion ``Lam`` of HSMM.tla on log weights; mode "sum" -> log of the summed weight of
    all admissible histories, "max" -> largest log weight. Equality with the enumeration of
    histories is model checked for integer weights (ForwardEqualsPathSum) and re-checked against
    the enumerated histories for every small instance."""
    lpi, lT, ld, lb = fac
    ns, nt, D, w = cfg["ns"], cfg["nt"], cfg["D"], cfg["w"]
    comb = (lambda a, axis: logsumexp(a, axis=axis)) if mode == "sum" else (
        lambda a, axis: np.max(a, axis=axis)
    )
    hmp = cfg["hmp"]
    allowed = np.zeros((ns, D - 1))
    if hmp:
        for j in range(1, ns, 2):
            allowed[j, :] = -np.inf
            if w <= D - 1:
                allowed[j, w - 1] = 0.0
    off = 0 if cfg["swf"] else ns
    f = np.full((ns, D - 1), -np.inf)
    for j in range(ns):
        f[j] = lpi[j] + ld[j, :, 0] + lb[0, 0, j] + allowed[j]
    for t in range(1, nt):
        g = np.full((ns, D - 1), -np.inf)
        for j in range(ns):
            cont = np.full(D - 1, -np.inf)
            for r in range(D - 2):
                pos = 0
                if hmp and j % 2 == 1:
                    pos = w - 1 - r
                    if pos < 0:
                        continue
                cont[r] = f[j, r + 1] + lb[t, pos, j]
            oth = [i for i in range(ns) if i != j]
            sw = comb(np.array([f[i, 0] + lT[i, j, t - 1] for i in oth]), 0)
            pos = 1 if hmp and j % 2 == 0 else 0
            new = sw + ld[j + off, :, t] + lb[t, pos, j] + allowed[j]
            g[j] = comb(np.stack([cont, new]), 0)
        f = g
    ends = [
        f[j, r]
        for j in range(ns)
        for r in range(D - 1)
        if (not cfg["ewl"] or r == 0) and (not cfg["eil"] or j == ns - 1)
    ]
    return float(comb(np.array(ends), 0)) if ends else -np.inf


def segments(states, ed, cfg):
    """Decoded states plus remaining duration -> [(j, d, t0)] of the history they denote."""
    segs = []
    for t, j in enumerate(states):
        if not segs or segs[-1][0] != j:
            segs.append([int(j), 0, t])
        segs[-1][1] += 1
    segs[-1][1] += int(ed)
    return segs


def history_logw(cfg, fac, states, ed):
    """Log weight of one history (-inf if it is not admissible)."""
    lpi, lT, ld, lb = fac
    ns, nt, D, w = cfg["ns"], cfg["nt"], cfg["D"], cfg["w"]
    if len(states) != nt or ed < 0 or min(states) < 0 or max(states) >= ns:
        return -np.inf
    segs = segments(states, ed, cfg)
    if cfg["ewl"] and ed != 0 or cfg["eil"] and states[-1] != ns - 1:
        return -np.inf
    tot = 0.0
    for k, (j, d, t0) in enumerate(segs):
        if d < 1 or d > D - 1 or (cfg["hmp"] and j % 2 == 1 and d != w):
            return -np.inf
        end = segs[k + 1][2] if k + 1 < len(segs) else nt
        tot += lpi[j] if k == 0 else lT[segs[k - 1][0], j, t0 - 1]
        tot += ld[j if (k == 0 or cfg["swf"]) else j + ns, d - 1, t0]
        for t in range(t0, end):
            pos = 0
            if cfg["hmp"]:
                pos = t - t0 if j % 2 == 1 else (1 if (k > 0 and t == t0) else 0)
            tot += lb[t, pos, j]
    return float(tot)
