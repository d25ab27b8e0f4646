"""C05: HSMM residuals follow the filter over history prefixes of HSMM.tla."""

import warnings

import numpy as np
import scipy as scp
from scipy.special import logsumexp

from .hsmm_inst import Instance, histories, key
from .hsmm_specs import all_specs, configs_for

warnings.simplefilter("ignore")


def prefix_configs(specs):
    out = []
    for c in configs_for(specs):
        for n in range(1, c["nt"] + 1):
            d = dict(c, nt=n, ewl=False, eil=False)
            if d not in out:
                out.append(d)
    return out


def filters(I, hist, si, fac):
    """Yield per sample t: (log normaliser of the past, [(log weight without the emission at t,
    position, state)]) over the prefixes that can still satisfy the end conditions."""
    lpi, lT, ld, lb = fac
    nt = I.nts[si]
    ewl, eil = I.s["ewl"], I.s["eil"]
    past = 0.0
    for t in range(nt):
        ps = hist[key(I.cfg(si, nt=t + 1, ewl=False, eil=False))]
        v = np.concatenate(
            [lpi.ravel(), lT[:, :, : t + 1].ravel(), ld[:, :, : t + 1].ravel(), lb[: t + 1].ravel(), [0.0]]
        )
        keep = np.ones(len(ps.states), dtype=bool)
        rems = np.array(ps.rems)
        last = np.array([x[-1] for x in ps.states])
        if ewl and t > 0:
            keep &= (t + rems) < nt
        if t == nt - 1:
            if ewl:
                keep &= rems == 0
            if eil:
                keep &= last == I.ns - 1
        lastf = np.array([row[row < ps.n][-1] for row in ps.idx])  # emission at t
        with np.errstate(invalid="ignore"):
            full = v[ps.idx].sum(axis=1)
            # weight without the last emission
            w0 = np.array([v[row[row < ps.n][:-1]].sum() for row in ps.idx])
        pos = ((lastf - ps.o_b) % (ps.P * I.ns)) // I.ns
        yield past, w0[keep], pos[keep], last[keep]
        past = logsumexp(full[keep]) if keep.any() else -np.inf


def expected(I, hist):
    fw, ev = [], []
    for si, (lpi, lT, ld, lb, mean, lcdf) in enumerate(I.factors(cdf=True)):
        nt = I.nts[si]
        F = np.zeros((nt, I.M))
        E = np.zeros((nt, I.M))
        for t, (past, w0, pos, last) in enumerate(filters(I, hist, si, (lpi, lT, ld, lb))):
            pr = np.exp(w0 - past)
            for m in range(I.M):
                F[t, m] = (pr * np.exp(lcdf[t, pos, last, m])).sum()
                E[t, m] = (pr * mean[t, pos, last, m]).sum()
        fw.append(F)
        ev.append(E)
    return fw, ev


def standardise(Y, E):
    d = Y - E
    r = np.cumsum(d, axis=0)
    ss = np.cumsum(d**2, axis=0)
    out = r.copy()
    out[1:] = r[1:] / np.sqrt(ss[1:])
    return out


def dur_resid(I, states, si):
    """Mean quantile residual of the visited segments' durations per state."""
    s = I.s
    parts, _ = I.unpack(I.coef)
    eta = {}
    for (kind, meta, X, y, _), c in zip(I.forms, parts):
        if kind == "d":
            eta[meta] = X @ c
    segs = []
    for t, j in enumerate(states):
        if not segs or segs[-1][0] != j:
            segs.append([int(j), 0, t])
        segs[-1][1] += 1
    res = [[] for _ in range(I.ns)]
    for k, (j, d, t0) in enumerate(segs):
        q = j if (k == 0 or s["swf"]) else j + I.ns
        if I.dfam[q] is None:
            res[j] = None
            continue
        r = I.sid[si] + t0 if I.tv else si
        e0, e1 = eta[(q, 0)][r], eta[(q, 1)][r]
        sc = np.exp(e1) - (-0.0001)
        if I.dfam[q] == "gam":
            # GAMMALS residual: standardised deviance residual; GAUMLSS: z-score (documented)
            res[j].append(("gam", d, np.exp(e0), sc))
        else:
            res[j].append(("gau", d, e0, sc))
    return res


def fam_resid(x):
    """Documented residuals of the two duration families used here."""
    import mssm.models as mm

    kind, d, mu, sc = x
    y = np.array([[float(d)]])
    m, q = np.array([[mu]]), np.array([[sc]])
    if kind == "gam":
        f = mm.GAMMALS([mm.LOG(), mm.LOGb(-0.0001)])
    else:
        f = mm.GAUMLSS([mm.Identity(), mm.LOGb(-0.0001)])
    return float(f.get_resid(y, m, q)[0, 0])


def cmp(chk, I, real, exp, clause, rep, tol=1e-7):
    if real.shape != exp.shape:
        return f"shape {real.shape}, expected {exp.shape}"
    both = np.isfinite(real) & np.isfinite(exp)
    if not np.allclose(real[both], exp[both], rtol=tol, atol=tol):
        i = np.unravel_index(np.nanargmax(np.where(both, np.abs(real - exp), -1)), real.shape)
        return f"sample {i[0]}, signal {i[1:]}: code {real[i]!r}, expected {exp[i]!r}"
    odd = np.isfinite(real) != np.isfinite(exp)
    if odd.any():
        i = tuple(np.argwhere(odd)[0])
        return f"sample {i}: code {real[i]!r}, expected {exp[i]!r}"
    return None


def check_resid(chk, I, hist, F, a, kind, rep):
    Yobs = I.Y
    with chk.guard(kind, rep) as g:
        r = np.asarray(F.get_resid(*a, resid_type=kind, **({"transform_to_normal": False} if kind == "forward" else {})))
    if g.failed:
        return None

    def exp():
        fw, ev = expected(I, hist)
        if kind == "forward":
            return np.concatenate(fw)
        Y = I.known_signals() if I.use_known_signals else I.Y
        if I.rho is not None:
            Y = I.ar_matrix().T @ Y
        return np.concatenate(
            [standardise(Y[b : b + n], E) for b, n, E in zip(I.sid, I.nts, ev)]
        )

    bad = cmp(chk, I, r, exp(), kind, rep)
    if bad and I.hits_known_signals():
        I.use_known_signals = True
        b2 = cmp(chk, I, r, exp(), kind, rep)
        I.use_known_signals = False
        if b2 is None:
            chk.violation(kind, bad, rep, finding="hmp-shared-signals")
            bad = None
    if bad:
        chk.violation(kind + "-residual", bad, rep)
    else:
        chk.ok()
    return r


def run(chk):
    specs = all_specs(chk, 40, 400)
    hist = histories(chk, prefix_configs(specs))
    for k, s in enumerate(specs):
        I = Instance(s, np.random.default_rng([chk.seed, k, 5]))
        rep = dict(spec=s, k=k)
        with chk.guard("construct", rep) as g:
            F, a = I.real(n_cores=2 if k % 29 == 7 else 1)
        if g.failed:
            continue
        zero = any(
            not np.isfinite(x).all() if False else False for x in []
        )
        if any(np.isneginf(logsumexp(f[1])) if len(f[1]) else True for si, fc in enumerate(I.factors()) for f in filters(I, hist, si, fc)):
            chk.count("skipped_zero_likelihood")
            continue
        u = check_resid(chk, I, hist, F, a, "forward", rep)
        check_resid(chk, I, hist, F, a, "predictive", rep) if not (s["obs"] == "hmp" and s.get("hmp_fam") == "Exponential") else None
        if u is not None and k % 4 == 0:
            with chk.guard("forward-normal", rep) as g:
                z = np.asarray(F.get_resid(*a))
                e = scp.stats.norm.ppf(u)
                ok = np.allclose(z, e, rtol=1e-8, atol=1e-8, equal_nan=True)
            if not g.failed and not ok:
                chk.violation("normal-transform", f"{z[:3]} vs {e[:3]}", rep)
        if k % 2 == 0:
            durs(chk, I, F, a, rep, k)
        if k < 2:
            chk.sample(dict(spec=s, forward=u))


def mean_res(x, n):
    out = np.zeros(n)
    for j in range(n):
        out[j] = np.nan if x[j] is None or len(x[j]) == 0 else np.mean([fam_resid(q) for q in x[j]])
    return out


def durs(chk, I, F, a, rep, k):
    with chk.guard("viterbi_dur", rep) as g:
        vit = F.decode_viterbi(*a)
        r = np.asarray(F.get_resid(*a, resid_type="viterbi_dur"))
    if not g.failed:
        e = np.stack([mean_res(dur_resid(I, np.asarray(v[1]).astype(int), si), I.ns) for si, v in enumerate(vit)])
        if r.shape != e.shape or not np.allclose(r, e, rtol=1e-8, atol=1e-8, equal_nan=True):
            chk.violation("viterbi-duration-residual", f"code {r.tolist()} expected {e.tolist()}", rep)
        else:
            chk.ok()
    with chk.guard("posterior_dur", rep) as g:
        smp = F.sample_posterior_states(*a, 3, 40 + k)
        r = np.asarray(F.get_resid(*a, resid_type="posterior_dur", n_samples=3, seed=40 + k))
    if not g.failed:
        e = np.stack(
            [
                np.stack([mean_res(dur_resid(I, np.asarray(x[1])[:, c].astype(int), si), I.ns) for c in range(3)], axis=1)
                for si, x in enumerate(smp)
            ]
        )
        if r.shape != e.shape or not np.allclose(r, e, rtol=1e-8, atol=1e-8, equal_nan=True):
            chk.violation("posterior-duration-residual", f"code {r.tolist()} expected {e.tolist()}", rep)
        else:
            chk.ok()
