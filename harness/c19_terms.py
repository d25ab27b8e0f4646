"""C19: summaries of terms and tests, from Terms.tla.

Formulas and the lines of their summaries come from TLC. Every formula is fitted, what the library prints is
parsed and compared, line by line, with degrees of freedom, statistics and p-values computed here from the
model matrix, the coefficients and their covariance. P-values by direct integration: a sum of a chi-square
variable and two weighted ones is a chi-square variable times a factor that depends on an angle and a beta
variable only."""

import contextlib
import io
import re
import warnings

import numpy as np
import pandas as pd
import scipy as scp

from .common import deadline, pmap, tla

KINDS = [  # name, part, columns per block, blocks, penalised, tested, once
    ("lin", "linear", 1, 1, False, False, False),
    ("fac", "linear", 2, 1, False, False, True),
    ("irf", "impulse", 4, 1, True, False, True),
    ("s", "smooth", 5, 1, True, True, False),
    ("sid", "smooth", 4, 1, True, True, False),
    ("null", "smooth", 4, 1, True, True, False),
    ("sby", "smooth", 4, 3, True, True, False),
    ("sbyid", "smooth", 12, 1, True, True, False),
    ("te", "smooth", 15, 1, True, True, True),
    ("bin", "smooth", 5, 1, True, True, True),
    ("cont", "smooth", 4, 1, True, True, True),
    ("unp", "smooth", 3, 1, False, True, False),
    ("unpby", "smooth", 3, 3, False, True, True),
    ("fs", "smooth", 16, 1, True, False, True),
    ("ri", "random", 4, 1, True, False, True),
    ("rs", "random", 3, 1, True, False, True),
    ("rsby", "random", 4, 3, True, False, True),
]
TWO = ("lin", "s", "sby", "unp", "fs", "ri", "null")
INV = ["ColumnsOnce", "Declared", "EntriesOnce", "Tested", "FullyCounted", "MeanKept"]
LEVELS = ["a", "b", "c"]


class Bad(Exception):
    pass


def data(seed):
    rng = np.random.default_rng(seed)
    n = 176
    d = pd.DataFrame({f"x{k}": np.round(rng.uniform(0, 1, n), 4) for k in range(4)})
    for k in range(4):
        d[f"w{k}"] = np.round(rng.normal(size=n), 3)
    d["z"] = np.round(rng.uniform(0, 1, n), 4)
    d["g"] = rng.choice(LEVELS, n)
    d["s"] = rng.choice(["s3", "s1", "s4", "s2"], n)
    d["ser"] = np.repeat(np.arange(8), n // 8)
    d["time"] = np.tile(np.arange(float(n // 8)), 8)
    eta = (0.35 * np.sin(7 * d["x0"]) + 0.3 * (d["x1"] - 0.5) ** 2 + 0.25 * d["x2"] * (d["g"] == "b") + 0.1 * d["w0"]
           + 0.1 * d["w1"] + 0.2 * d["z"] + d["s"].map({"s1": 0.2, "s2": -0.2, "s3": 0.1, "s4": 0})
           + 0.15 * (d["g"] == "c")).to_numpy(float)
    d["y"] = eta + 0.6 * rng.normal(size=n)
    d["k"] = rng.poisson(np.exp(eta + 0.3)).astype(float)
    d["p"] = rng.gamma(2.0, np.exp(eta) / 2.0)
    d["b"] = (rng.uniform(size=n) < 1 / (1 + np.exp(-2 * eta))).astype(float)
    out = rng.choice(n, 11, replace=False)
    for c in "ykpb":
        d.loc[out, c] = np.nan
    return d


def terms(names, off=0):
    from mssm.models import f, fs, i, irf, l, ri, rs

    T = [i()] if names != ["blocks"] else []
    for j, nm in enumerate(names):
        x, w = f"x{(j + off) % 4}", f"w{(j + off) % 4}"
        T.append({
            "lin": lambda: l([w]),
            "fac": lambda: l(["g"]),
            "irf": lambda: irf(["time"], [5, 3, 8, 2, 6, 4, 7, 5], [{"max_c": 20, "min_c": 0, "convolve": True}], nk=4),
            "s": lambda: f([x], nk=5),
            "sid": lambda: f([x], nk=4, id=90),
            "null": lambda: f([x], nk=4, penalize_null=True),
            "sby": lambda: f([x], by="g", nk=4),
            "sbyid": lambda: f([x], by="g", nk=4, id=3 * j + 1),
            "blocks": lambda: f([x], by="g", nk=4, id=1),  # without an intercept levels have nothing in common
            "te": lambda: f([x, "z"], nk=[4, 4], te=True),
            "bin": lambda: f([x], binary=("g", "b"), nk=4),
            "cont": lambda: f([x], by_cont="w3", nk=4),
            "unp": lambda: f([x], nk=3, is_penalized=False),
            "unpby": lambda: f([x], by="g", nk=3, is_penalized=False),
            "fs": lambda: fs([x], rf="s", nk=3),
            "ri": lambda: ri("s"),
            "rs": lambda: rs(["w2", "g"]),
            "rsby": lambda: rs(["w2", "s"], by="g"),
        }[nm]())
    return T


FAMS = ["gauss", "poisson", "gamma", "binom", "fixed", "gaumlss"]


def fit(names, fam, d):
    """names: terms of each formula."""
    from mssm.models import GAMM, GAMMLSS, Formula, lhs
    from mssm.src.python import exp_fam as E

    y = {"gauss": "y", "fixed": "y", "poisson": "k", "gamma": "p", "binom": "b", "gaumlss": "y"}[fam]
    series = "ser" if any("irf" in n for n in names) else None
    F = [Formula(lhs(y), terms(n, o), d, print_warn=False, series_id=series) for o, n in enumerate(names)]
    if fam == "gaumlss":
        m = GAMMLSS(F, E.GAUMLSS([E.Identity(), E.LOGb(-0.001)]))
    else:
        fm = {"gauss": E.Gaussian, "poisson": E.Poisson, "gamma": E.Gamma, "binom": E.Binomial,
              "fixed": lambda: E.Gaussian(scale=0.4)}[fam]()
        m = GAMM(F[0], fm)
    bare = printed(m.print_parametric_terms), printed(m.print_smooth_terms)
    m.fit(progress_bar=False, n_cores=1) if fam != "gaumlss" else m.fit(progress_bar=False)
    return m, bare


def printed(fn, **kw):
    b = io.StringIO()
    with contextlib.redirect_stdout(b), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fn(**kw)
    return b.getvalue()


def sections(text):
    """Lines per parameter of the distribution."""
    out = []
    for ln in text.splitlines():
        if ln.startswith("Distribution parameter:"):
            out.append([])
        elif ln.strip() and not ln.startswith("Note:") and "penalized to zero" not in ln:
            out[-1].append(ln)
    return out


# ------------------------------------------------------------------------- oracle
_X, _W = np.polynomial.legendre.leggauss(60)
# angles get dense where the smaller weight dominates (small statistics, degrees of freedom just above an integer)
_PX, _PW = np.polynomial.legendre.leggauss(160)
_PH = np.pi / 2 * ((_PX + 1) / 2) ** 5
_PW = _PW / 2 * 5 * ((_PX + 1) / 2) ** 4


def tail(T, k, v, rdf=None, w=None):
    """P(chi2_{k-1} + v1 chi2_1 + v2 chi2_1 > T), or > T * chi2_rdf / w."""
    if T <= 0:
        return 1.0
    v1 = (v + 1 + np.sqrt(1 - v * v)) / 2
    v2 = v + 1 - v1
    q = v1 * np.sin(_PH) ** 2 + v2 * np.cos(_PH) ** 2
    if k > 1:
        u = (_X + 1) / 2  # beta = u^2 has density (k-1) u^(k-2) du
        wt = _W / 2 * (k - 1) * u ** (k - 2)
        b = u ** 2
        fac = b[:, None] + (1 - b[:, None]) * q[None, :]
        wt = wt[:, None] * _PW
    else:
        fac, wt = q[None, :], _PW[None, :]
    m = k + 1
    if rdf is None:
        p = scp.stats.chi2.sf(T / fac, m)
    else:
        p = scp.stats.f.sf(T * (rdf / (w or rdf)) / fac / m, m, rdf)
    return float((p * wt).sum())


def statistic(X, b, V, r):
    """Statistic of rank r and its alternative (the sign of one direction is arbitrary), eigenvalues."""
    R = np.linalg.qr(X, mode="r")
    M = R @ V @ R.T
    s, U = np.linalg.eigh((M + M.T) / 2)
    s, U = s[::-1], U[:, ::-1]
    k = int(r)
    v = r - k
    z = U.T @ (R @ b)
    if v == 0:
        t = float((z[:k] ** 2 / s[:k]).sum())
        return [t, t], s
    a, c = z[k - 1] / np.sqrt(s[k - 1]), z[k] / np.sqrt(s[k])
    t = float((z[:k - 1] ** 2 / s[:k - 1]).sum()) + a * a + v * c * c
    x = 2 * np.sqrt(v * (1 - v) / 2) * a * c
    return [t + x, t - x], s


def judge(X, b, V, r, rdf, got_p, got_T, what):
    """None, or "one" if only one of the two alternatives was used."""
    k, v = int(r), r - int(r)
    if k == 0 and v < 1 - 1e-7:
        if got_p != 1 or got_T != -1:
            raise Bad(f"{what}: less than one degree of freedom is not tested, reported {got_p}, {got_T}")
        return None
    if v and min(v, 1 - v) < 1e-7:
        return None  # which side of an integer is a matter of rounding
    Ts, s = statistic(X, b, V, r)
    top = k + (v > 0)
    if s[top - 1] < 1e-7 * s[0]:
        return None  # rank below what is asked for
    cuts = [k] if v == 0 else [k - 1, k, k + 1]
    if any(0 < c < len(s) and s[c - 1] - s[c] < 1e-3 * s[c - 1] for c in cuts):
        return None  # directions are not unique
    if not 0 <= got_p <= 1:
        raise Bad(f"{what}: p-value {got_p}")
    P = []
    for T in Ts:
        if v == 0:
            P.append([scp.stats.chi2.sf(T, k)] if rdf is None else [scp.stats.f.sf(T / k, k, rdf)])
        elif rdf is None:
            P.append([tail(T, k, v)])
        else:  # residual degrees of freedom may be rounded
            P.append([tail(T, k, v, rdf), tail(T, k, v, np.floor(rdf), rdf), tail(T, k, v, np.round(rdf)), tail(T, k, v, np.floor(rdf))])
        if 0 < v < 2e-3:  # weights of very different size: the approximation stands in if the exact method gives up
            P[-1].append(scp.stats.gamma.sf(T, r / 2, scale=2) if rdf is None else scp.stats.f.sf(T / r, r, rdf))
    div = 1 if rdf is None else (k if v == 0 else r)
    # degrees of freedom are only known up to the accuracy with which they are computed
    slack = 2e-5 * max(Ts) + (1e-2 * abs(Ts[0] - Ts[1]) if 0 < v < 1e-4 else 0)

    def near(T, lo, hi):
        return (abs(got_T - T / div) <= slack / div + 1e-9
                and lo - 5e-5 <= got_p <= hi + 5e-5)

    if near(max(Ts), (min(P[0]) + min(P[1])) / 2, (max(P[0]) + max(P[1])) / 2):
        return None
    for T, p in zip(Ts, P):
        if near(T, min(p), max(p)):
            return "one"
    raise Bad(f"{what}: rank {r:.5f}: p = {got_p:.6g}, statistic {got_T:.6g}; expected p = "
              f"{(P[0][0] + P[1][0]) / 2:.6g}, statistic {max(Ts) / div:.6g}")


SM = re.compile(r"^(?P<name>.*); edf: (?P<edf>[-\d.e+]+)(?P<out> \*)?"
                r"(?: (?P<stat>f|chi\^2): (?P<T>[-\d.e+]+) P\((?P<ref>.*)\) = (?P<p>[-\d.e+]+)(?P<star> \*+| \.)?)?$")
PA = re.compile(r"^(?P<name>.*): (?P<c>[-\d.e+]+), (?P<stat>[tz]): (?P<t>[-\d.e+]+)(?:, DoF\.: (?P<dof>\d+))?, "
                r"P\(.*\): (?P<p>[-\d.e+]+)(?P<star> \*+| \.)?$")


def star(p):
    return " ***" if p < 0.001 else " **" if p < 0.01 else " *" if p < 0.05 else " ." if p < 0.1 else None


def shown(p, q):
    """p as printed for the value q."""
    return abs(p - q) <= max(6e-4 * abs(q), 6e-6 if q > 0.00099 else 0)


def edges(p):
    return any(abs(p - e) < 1e-7 for e in (0.001, 0.01, 0.05, 0.1))


def summary(m, bare, rec, fam, cutoff):
    from mssm.src.python.utils import approx_smooth_p_values

    gam = fam != "gaumlss"
    known = fam in ("poisson", "binom", "fixed", "gaumlss")
    scale = m.scale if gam else 1.0
    V = (m.lvi.T @ m.lvi).toarray()
    H = (-m.hessian).toarray() * scale
    F = V @ H
    d1, d2 = np.diag(F), np.einsum("ij,ji->i", F, F)
    V = V * scale
    one = 0
    for corrected in (True, False):
        text = sections(printed(m.print_smooth_terms, p_values=True, edf1=corrected, pen_cutoff=cutoff))
        ptext = sections(printed(m.print_parametric_terms))
        if len(text) != len(rec["forms"]) or len(ptext) != len(text):
            raise Bad("summary does not list the parameters")
        off = 0
        for p, names in enumerate(rec["forms"]):
            form = m.formulas[p]
            X = (m.get_mmat() if gam else m.get_mmat()[p]).toarray()
            n, nc = X.shape
            L = [x for x in rec["lines"] if x["par"] == p + 1]
            if nc != max([1] + [x["last"] for x in L]):
                raise Bad(f"{nc} columns")
            b = m.coef.ravel()[off:off + nc]
            rdf = None if known else n - m.edf
            # linear terms
            lin = [1] + [c for x in L if x["part"] == "linear" for c in range(x["first"], x["last"] + 1)]
            if len(ptext[p]) != len(lin):
                raise Bad(f"{len(ptext[p])} lines for {len(lin)} parametric coefficients: {ptext[p]}")
            for c, ln in zip(lin, ptext[p]):
                g = PA.match(ln)
                if g is None:
                    raise Bad(f"cannot read {ln!r}")
                t = b[c - 1] / np.sqrt(V[off + c - 1, off + c - 1])
                df = n - nc
                q = 2 * (scp.stats.norm.sf(abs(t)) if known else scp.stats.t.sf(abs(t), df))
                if g["name"] != form.coef_names[c - 1]:
                    raise Bad(f"line {ln!r} for coefficient {form.coef_names[c - 1]}")
                if (abs(float(g["c"]) - b[c - 1]) > 6e-4 or abs(float(g["t"]) - t) > 6e-4 + 1e-6 * abs(t)
                        or (abs(float(g["p"]) - q) > 1e-12 and not shown(float(g["p"]), q))
                        or g["stat"] != ("z" if known else "t")
                        or (not known and int(g["dof"]) != df) or (known and g["dof"] is not None)
                        or (not edges(q) and g["star"] != star(q))):
                    raise Bad(f"line {ln!r}: coefficient {b[c - 1]:.4f}, statistic {t:.4f}, p = {q:.6g}, {df} dof")
            # smooth and random terms
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ps, Ts = approx_smooth_p_values(m, par=p, edf1=corrected)
            show = [x for x in L if x["part"] in ("smooth", "random")]
            if len(text[p]) != len(show):
                raise Bad(f"{len(text[p])} lines for {len(show)} blocks: {text[p]}")
            if len(ps) != sum(x["test"] > 0 for x in show) or len(Ts) != len(ps):
                raise Bad(f"{len(ps)} tests for {sum(x['test'] > 0 for x in show)} blocks")
            for x, ln in zip(show, text[p]):
                g = SM.match(ln)
                if g is None:
                    raise Bad(f"cannot read {ln!r}")
                nm = names[x["term"] - 1]
                sl = slice(x["first"] - 1, x["last"])
                gl = slice(off + x["first"] - 1, off + x["last"])
                if nm in ("sby", "unpby", "rsby"):
                    rows = np.flatnonzero(np.abs(X[:, sl]).sum(axis=1) > 0)
                    lv = set(np.asarray(m._vp_g)[rows])
                    if len(lv) != 1 or not g["name"].endswith(":" + next(iter(lv))) and not g["name"].endswith(": " + next(iter(lv))):
                        raise Bad(f"line {ln!r} for columns of level {lv}")
                var = f"x{(x['term'] - 1 + p) % 4}" if nm not in ("ri", "rs", "rsby") else {"ri": "s"}.get(nm, "w2")
                if var not in g["name"]:
                    raise Bad(f"line {ln!r} for term {nm} of {var}")
                w = x["last"] - x["first"] + 1
                e = d1[gl].sum() if x["entry"] else float(w)
                if abs(float(g["edf"]) - e) > 6e-4 + 1e-5 * e:
                    raise Bad(f"line {ln!r} for term {nm} {x['block']}: {e:.4f} degrees of freedom")
                if abs(e - cutoff) > 1e-3 and x["part"] == "smooth" and (g["out"] is not None) != (e < cutoff):
                    raise Bad(f"line {ln!r}: mark of terms below {cutoff}")
                if (g["p"] is not None) != (x["test"] > 0):
                    raise Bad(f"line {ln!r}: tested or not")
                if not x["test"]:
                    continue
                pv, T = ps[x["test"] - 1], Ts[x["test"] - 1]
                if g["stat"] != ("chi^2" if known else "f") or abs(float(g["T"]) - T) > 6e-4 + 1e-6 * abs(T) or \
                        (abs(float(g["p"]) - pv) > 1e-12 and not shown(float(g["p"]), pv)) or \
                        (not edges(pv) and g["star"] != star(pv)):
                    raise Bad(f"line {ln!r}: statistic {T}, p {pv}")
                r = 2 * e - d2[gl].sum() if corrected and x["entry"] else e
                r = min(r, w)
                if abs(r - round(r)) < 1e-5 * max(1, r) and x["entry"]:
                    continue  # which integer is next is a matter of rounding
                if x["entry"] == 0:
                    r = w
                if judge(X[:, sl], b[sl], V[gl, gl], r, rdf, pv, T, f"{nm} {x['block']} ({'corrected' if corrected else 'plain'})"):
                    one += 1
            off += nc
    # degrees of freedom of the model
    full = {True: 0.0, False: 0.0}
    off = 0
    for p, names in enumerate(rec["forms"]):
        L = [x for x in rec["lines"] if x["par"] == p + 1]
        for x in [{"first": 1, "last": 1, "entry": 0}, *L]:
            gl = slice(off + x["first"] - 1, off + x["last"])
            w = x["last"] - x["first"] + 1
            full[False] += d1[gl].sum() if x["entry"] else w
            full[True] += 2 * d1[gl].sum() - d2[gl].sum() if x["entry"] else w
        off += max([1] + [x["last"] for x in L])
    if abs(m.edf1 - full[True]) > 1e-4 * full[True] or abs(m.edf - full[False]) > 1e-4 * full[False]:
        raise Bad(f"degrees of freedom {m.edf}, corrected {m.edf1}; expected {full}")
    # before the fit only names are listed
    for got, want in zip(bare, ("linear", "other")):
        for p, ls in enumerate(sections(got)):
            form = m.formulas[p]
            tn = form.get_term_names()
            k = [j for j in (form.get_linear_term_idx() if want == "linear" else
                             [*form.get_smooth_term_idx(), *form.get_random_term_idx()])]
            if [x.strip() for x in ls] != [str(tn[j]).strip() for j in k]:
                raise Bad(f"before the fit: {ls}")
    return one


def ranks(m, recs, size, fam):
    """Degrees of freedom set from outside: which test."""
    from mssm.src.python.utils import approx_smooth_p_values

    X = m.get_mmat().toarray()
    n, nc = X.shape
    V = (m.lvi.T @ m.lvi).toarray() * m.scale
    b = m.coef.ravel()
    X, V, b = X[:, nc - size:], V[nc - size:, nc - size:], b[nc - size:]
    one, done = 0, 0
    rdf = n - m.edf if fam in ("gauss", "gamma") else None
    for rec in recs:
        if rec["size"] != size:
            continue
        m.term_edf = [rec["r"] / 4]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ps, Ts = approx_smooth_p_values(m, edf1=False)
        want = "untested" if rec["r"] < 4 else rec["path"]
        if (Ts[0] == -1 and ps[0] == 1) != (want == "untested"):
            raise Bad(f"{rec}: {ps}, {Ts}")
        if judge(X, b, V, rec["r"] / 4, rdf, ps[0], Ts[0], f"{rec} {fam}"):
            one += 1
        done += 1
        if want == "split":  # the approximate reference distribution
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                pa, Ta = approx_smooth_p_values(m, edf1=False, force_approx=True)
            Z, s = statistic(X, b, V, r := rec["r"] / 4)
            k = int(r)
            if any(0 < c < len(s) and s[c - 1] - s[c] < 1e-3 * s[c - 1] for c in (k - 1, k, k + 1)) or s[k] < 1e-7 * s[0]:
                continue
            w = [scp.stats.gamma.sf(z, r / 2, scale=2) if rdf is None else scp.stats.f.sf(z / r, r, rdf) for z in Z]
            if Ta != Ts or not min(w) - 1e-7 <= pa[0] <= max(w) + 1e-7:
                raise Bad(f"{rec} {fam}: approximate p = {pa[0]:.6g}, statistic {Ta}, expected {w}, {Ts}")
    return one, done


def subset(m, seed):
    """A sample of rows: tests of models with more rows than asked for."""
    from mssm.src.python.utils import approx_smooth_p_values

    X = m.get_mmat().toarray()
    a = approx_smooth_p_values(m, n_sel=100.0, seed=seed)
    b = approx_smooth_p_values(m, n_sel=100, seed=seed)
    if a != b:
        raise Bad(f"tests on a sample of rows are not reproducible: {a}, {b}")
    c, d = approx_smooth_p_values(m, n_sel=X.shape[0]), approx_smooth_p_values(m)
    if c != d:
        raise Bad(f"tests on all rows: {c}, {d}")


def run(chk):
    warnings.simplefilter("ignore")
    q = chk.quick
    rng = np.random.default_rng(chk.seed)

    def kinds(names=None):
        return tla([dict(zip(("name", "part", "size", "blocks", "pen", "test", "once"), k)) for k in KINDS
                    if names is None or k[0] in names])

    base = {"Clash": '{{"fac", "bin"}}', "Blocks": "{3, 4, 5, 12, 15}"}
    R1 = chk.tlc("Terms", defs={**base, "Kinds": kinds(), "Mode": '"read"'}, consts={"MaxTerms": "3", "Pars": "1"},
                 spec="Spec", invariants=INV).records
    R2 = chk.tlc("Terms", defs={**base, "Kinds": kinds(TWO), "Mode": '"read"'}, consts={"MaxTerms": "2", "Pars": "2"},
                 spec="Spec", invariants=INV).records
    R3 = chk.tlc("Terms", defs={**base, "Kinds": kinds(), "Mode": '"rank"'}, consts={"MaxTerms": "1", "Pars": "1"},
                 spec="Spec", invariants=INV).records
    chk.log(len(R1), len(R2), len(R3), "records")

    def cover(recs, k, single):
        """Formulas such that ordered pairs of kinds are spread evenly."""
        seen, use = {}, []
        order = rng.permutation(len(recs))
        left = list(order[:4000])
        for _ in range(k):
            cand = [left[j] for j in rng.choice(len(left), min(150, len(left)), replace=False)]

            def gain(i):
                f = recs[i]["forms"]
                pr = [(p, a, b) for p, x in enumerate(f) for j, a in enumerate(x) for b in [None, *x[j + 1:]]]
                return sum(1 / (1 + 3 * seen.get(z, 0)) for z in pr), pr

            best = max(cand, key=lambda i: gain(i)[0])
            for z in gain(best)[1]:
                seen[z] = seen.get(z, 0) + 1
            left.remove(best)
            use.append(recs[best])
        return use, len(seen)

    jobs = []
    A, pa = cover(R1, 70 if q else 420, True)
    for j, rec in enumerate(A):
        jobs.append(("read", rec, FAMS[j % 5]))
    B, pb = cover(R2, 10 if q else 60, False)
    for rec in B:
        jobs.append(("read", rec, "gaumlss"))
    for j, (nm, size) in enumerate([("s", 5), ("null", 4), ("te", 15), ("blocks", 12)] * 2):
        jobs.append(("rank", {"forms": [[nm]], "size": size}, ["gauss", "poisson", "gamma", "fixed", "binom"][j % 5]))
    chk.count("pairs of kinds in one formula", pa)
    chk.count("pairs of kinds in formulas of two parameters", pb)

    def work(i):
        kind, rec, fam = jobs[i]
        try:
            with deadline(240):
                d = data(chk.seed * 1000 + i)
                m, bare = fit(rec["forms"], fam, d)
                m._vp_g = d["g"].to_numpy()[~np.isnan(d["y"].to_numpy())]
                if kind == "read":
                    one = summary(m, bare, rec, fam, 0.2 if i % 2 else 0.6)
                    if fam != "gaumlss":
                        subset(m, i)
                    return None, one, len(rec["lines"])
                one, done = ranks(m, R3, rec["size"], fam)
                return None, one, done
        except Bad as ex:
            return ("summary" if kind == "read" else "rank", str(ex)), 0, 0
        except Exception as ex:  # noqa: BLE001
            import traceback

            return ("raises", f"{type(ex).__name__}: {ex} {traceback.format_exc()[-600:]}"), 0, 0

    single = 0
    for (kind, rec, fam), (bad, one, n) in zip(jobs, pmap(work, len(jobs))):
        chk.ok()
        chk.count("lines" if kind == "read" else "ranks", n)
        single += one
        if bad:
            chk.violation(bad[0], f"{fam} {rec['forms']}: {bad[1]}", replay={"formulas": rec["forms"], "family": fam})
    if single:
        chk.violation("alternatives", f"{single} p-values are not the average over both alternatives",
                      finding="tests-one-alternative")
    chk.count("tests with one alternative", single)
    for j in jobs[:2]:
        chk.sample({"formulas": j[1]["forms"], "family": j[2], "lines": j[1].get("lines")})
    chk.assumptions += ["degrees of freedom, coefficients and covariance of the fit are those of the model (C13)",
                        "tests of blocks whose covariance has a lower rank than the test asks for are not judged",
                        "residual degrees of freedom may be rounded in fractional tests"]
