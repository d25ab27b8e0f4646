"""Term alphabets, data frames and the numeric evaluation of the column recipes and penalties that
spec/Formula.tla derives for a formula."""

import warnings

import numpy as np
import pandas as pd

warnings.simplefilter("ignore")

LEV = {"g": ["a", "b", "c"], "s": ["u", "v"], "k:u": ["p1", "p2"], "k:v": ["q1", "q2", "q3"]}
LEV["k"] = LEV["k:u"] + LEV["k:v"]
CODEBOOK = {"g": {"a": 2, "b": 0, "c": 1}, "s": {"u": 1, "v": 0}}


def levels(coded):
    out = {k: list(v) for k, v in LEV.items()}
    if coded:
        for var, cb in CODEBOOK.items():
            out[var] = sorted(cb, key=lambda c: cb[c])
    return out


def frame(seed, n=72, na=False, series=6, na_g=True):
    """Generic data: every factor combination occurs, factor g is constant within a series."""
    rng = np.random.default_rng(seed)
    d = pd.DataFrame()
    per = n // series
    d["sid"] = np.repeat([f"s{j}" for j in rng.permutation(series)], per)
    d["time"] = np.tile(np.arange(per, dtype=float), series)
    d["x"] = rng.uniform(-1, 3, n)
    d["z"] = rng.uniform(10, 20, n)
    d["w"] = rng.integers(-3, 4, n)
    d["v"] = rng.uniform(0.5, 2, n)
    gl = [LEV["g"][j % 3] for j in range(series)]
    d["g"] = np.repeat([gl[j] for j in rng.permutation(series)], per)
    d["s"] = rng.choice(LEV["s"], n)
    d["k"] = [rng.choice(LEV["k:" + s]) for s in d["s"]]
    d["y"] = rng.normal(size=n)
    d["y2"] = rng.normal(size=n)
    for c in ("g", "s", "k", "sid"):
        d[c] = d[c].astype(object)
    if na:
        for c in ("y", "x", "w", "s") + (("g",) if na_g else ()):
            d.loc[d.index[rng.choice(n, 2, replace=False)], c] = np.nan
    return d


EV = [2, 0, 3, 1, 4, 2]


def T(k, vars=(), kind=None, **kw):
    r = dict(
        k=k, kind=kind, vars=list(vars), by="", bin=[], bycont="", nk=[], te=False, ident=False,
        con="QR", rp=0, pen=True, null=False, id=-1, ms=[2], sub="", m=0, dist=False,
    )
    r.update(kw)
    if kind is None:
        r["kind"] = {"i": "lin", "l": "lin", "f": "smooth", "fs": "smooth", "irf": "irf",
                     "ri": "rand", "rs": "rand"}[k]
    if k in ("i", "l"):
        r["pen"] = False
    return r


def F_(vars, nk=4, **kw):
    """f(): nk is what the user asks for; the record holds the resulting basis sizes."""
    te = kw.get("te", False)
    binary = bool(kw.get("bin"))
    ident = kw.pop("ident", True)
    kw.setdefault("rp", 0 if len(vars) == 1 else 2)
    nks = [nk] * len(vars) if isinstance(nk, int) else list(nk)
    r = T("f", vars, **kw)
    r["ask_nk"] = nk
    r["ask_ident"] = ident
    if binary and ident:
        ident = False
        if not te:
            nks = [j + 1 for j in nks]
    r["ident"], r["nk"] = ident, nks
    return r


def FS(vars, rf, nk=4, m=1, rp=1, sub="", **kw):
    return T("fs", vars, by=rf, nk=[nk + 1], ms=[m], rp=rp, null=True, id=99, sub=sub,
             ask_nk=nk, **kw)


def IRF(nk=5, **kw):
    return T("irf", ["time"], nk=[nk], ask_nk=nk, **kw)


def spec_record(t):
    return {k: t[k] for k in ("k", "kind", "vars", "by", "bin", "bycont", "nk", "te", "ident",
                              "rp", "pen", "null", "id", "ms")}


# ----------------------------------------------------------------------- real term objects
def real(t):
    from mssm.models import f, fs, i, irf, l, ri, rs
    from mssm.src.python.custom_types import ConstType, PenType
    from mssm.src.python.penalties import DifferencePenalty, IdentityPenalty

    con = {"QR": ConstType.QR, "DROP": ConstType.DROP, "DIFF": ConstType.DIFF}[t["con"]]
    idk = None if t["id"] < 0 else t["id"]
    if t["k"] == "i":
        return i()
    if t["k"] == "l":
        return l(list(t["vars"]))
    if t["k"] == "ri":
        return ri(t["vars"][0], id=idk)
    if t["k"] == "rs":
        return rs(list(t["vars"]), by=t["by"] or None, id=idk)
    if t["k"] == "irf":
        return irf(list(t["vars"]), EV, [{"min_c": 0, "max_c": 11, "convolve": True}],
                   by=t["by"] or None, id=idk, nk=t["ask_nk"], is_penalized=t["pen"],
                   penalty=[IdentityPenalty(PenType.DISTANCE)] if t["dist"] else None,
                   pen_kwargs=[{"f": _dist}] if t["dist"] else None)
    if t["k"] == "fs":
        sub = [t["by"].split(":")[0]]
        return fs(list(t["vars"]), rf=sub[0], nk=t["ask_nk"], m=t["ms"][0], rp=t["rp"],
                  by_cont=t["bycont"] or None,
                  by_subgroup=["s", t["sub"]] if t["sub"] else None)
    kw = dict(by=t["by"] or None, by_cont=t["bycont"] or None, binary=t["bin"] or None, id=idk,
              nk=t["ask_nk"], te=t["te"], constraint=con, identifiable=t["ask_ident"],
              is_penalized=t["pen"], penalize_null=t["null"])
    default_rp = 0 if len(t["vars"]) == 1 else 2
    if t["rp"] != default_rp:
        kw["rp"] = t["rp"]
    if t["ms"] != [2]:
        kw["penalty"] = [DifferencePenalty() for _ in t["ms"]]
        kw["pen_kwargs"] = [{"m": m} for m in t["ms"]]
    return f(list(t["vars"]), **kw)


def _dist(j):
    return j**2


# ----------------------------------------------------------------------- bases
def bspline(x, knots, deg=3):
    """B-spline basis by the Cox - de Boor recursion."""
    x = np.asarray(x, float)
    t = np.asarray(knots, float)
    B = np.array([(x >= t[j]) & (x < t[j + 1]) for j in range(len(t) - 1)], float).T
    for d in range(1, deg + 1):
        nB = np.zeros((len(x), len(t) - 1 - d))
        for j in range(nB.shape[1]):
            a = (x - t[j]) / (t[j + d] - t[j]) * B[:, j]
            b = (t[j + d + 1] - x) / (t[j + d + 1] - t[j + 1]) * B[:, j + 1]
            nB[:, j] = a + b
        B = nB
    return B


def basis(x, lo, hi, nk, deg=3):
    ndx = nk - deg
    dx = (hi - lo) / ndx
    return bspline(x, lo + dx * np.arange(-deg, ndx + deg + 1), deg)


def ir_basis(time, onset, nk, lo, hi, deg=3):
    ndx = nk - deg
    B = bspline(time, np.linspace(lo, hi, ndx + 1 + 2 * deg), deg)
    out = np.zeros_like(B)
    if onset < len(time):
        out[onset:] = B[: len(time) - onset]
    return out


def rowkron(A, B):
    return np.einsum("ij,ik->ijk", A, B).reshape(A.shape[0], -1)


def raw_nk(t):
    """Sizes of the unconstrained marginal bases."""
    return [j + 1 if t["ident"] and not t["te"] else j for j in t["nk"]]


def term_basis(t, d, ranges, sids=None):
    if t["k"] == "irf":
        out = np.zeros((len(d), t["nk"][0]))
        sid = d["sid"].to_numpy()
        _, first = np.unique(sid, return_index=True)
        for ser, name in enumerate(sid[np.sort(first)]):
            m = sid == name
            out[m] = ir_basis(d["time"].to_numpy()[m], EV[ser], t["nk"][0], 0, 11)
        return out
    B = None
    for v, nk in zip(t["vars"], raw_nk(t)):
        Bv = basis(d[v].to_numpy(), *ranges[v], nk)
        B = Bv if B is None else rowkron(B, Bv)
    return B


def raw_var(v):
    return v.split(":")[0]


def indicator(d, ind):
    m = np.ones(len(d))
    for v, lev in ind:
        m = m * (d[raw_var(v)].to_numpy() == lev)
    return m


def weight(d, num):
    w = np.ones(len(d))
    for v in num:
        w = w * d[v].to_numpy().astype(float)
    return w


class Mismatch(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Mismatch(msg)


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (
        a.size == 0 or np.max(np.abs(a - b)) <= tol * (1 + np.max(np.abs(b)))
    )


def span_map(B, Xb, what):
    """The matrix A with Xb = B @ A; None and Mismatch if there is none."""
    A = np.linalg.lstsq(B, Xb, rcond=None)[0]
    need(close(B @ A, Xb, 1e-6), f"{what}: columns are not combinations of the term's basis")
    return A


def check_smooth(t, cols, X, d, ranges, tag, A_known=None):
    """Columns of one smooth term against its recipe; returns the coefficient map A."""
    need(len(cols) == X.shape[1], f"{tag}: {X.shape[1]} columns, {len(cols)} expected")
    blocks = {}
    for j, c in enumerate(cols):
        blocks.setdefault(tuple(map(tuple, c["ind"])), []).append(j)
    B = term_basis(t, d, ranges)
    rowsB, rowsX = [], []
    for ind, js in blocks.items():
        m = indicator(d, ind) != 0
        need(np.all(X[np.ix_(~m, js)] == 0), f"{tag}: non-zero outside {ind}")
        w = weight(d, cols[js[0]]["num"])[m]
        rowsB.append(B[m] * w[:, None])
        rowsX.append(X[np.ix_(m, js)])
    Bs, Xs = np.vstack(rowsB), np.vstack(rowsX)
    if A_known is not None:
        need(close(Bs @ A_known, Xs, 1e-6), f"{tag}: new data is not evaluated like training data")
        return A_known
    need(np.linalg.matrix_rank(Bs) == Bs.shape[1], f"{tag}: harness data too thin")
    return span_map(Bs, Xs, tag)


def check_map(t, A, d, ranges, tag):
    """Identifiability constraints and re-parameterisation of a smooth, from its map A."""
    k = len(A)
    need(np.linalg.matrix_rank(A) == A.shape[1], f"{tag}: coefficients are redundant")
    if t["rp"] == 0 and not t["ident"]:
        need(close(A, np.eye(k)), f"{tag}: coefficient j does not multiply basis function j")
    if t["ident"] and (t["te"] or len(t["vars"]) == 1):
        B = term_basis(t, d, ranges)
        if t["con"] == "QR":
            need(np.max(np.abs(B.sum(0) @ A)) < 1e-7 * (1 + np.abs(B @ A).sum(0).max()),
                 f"{tag}: columns do not sum to zero over the training data")
        elif t["rp"] == 0 and t["con"] == "DROP":
            one = np.isclose(A, 1).sum(0)
            need(np.all(one == 1) and np.isclose(np.abs(A).sum(), A.shape[1]),
                 f"{tag}: DROP constraint does not drop one basis function")
            need(np.all(np.diff(np.argmax(A, 0)) > 0), f"{tag}: basis functions out of order")
        elif t["rp"] == 0 and t["con"] == "DIFF":
            need(np.max(np.abs(A.sum(0))) < 1e-7, f"{tag}: coefficients do not sum to zero")
        need(A.shape[1] == k - 1, f"{tag}: wrong number of coefficients")
    if t["ident"] and not t["te"] and len(t["vars"]) > 1:
        fac = kron_factors(t, A, tag)
        for v, nk, Av in zip(t["vars"], raw_nk(t), fac):
            Bv = basis(d[v].to_numpy(), *ranges[v], nk)
            if t["con"] == "QR":
                need(np.max(np.abs(Bv.sum(0) @ Av)) < 1e-6 * (1 + np.abs(Bv @ Av).sum(0).max()),
                     f"{tag}: margin {v} is not centred over the training data")


def kron_factors(t, A, tag):
    """A = A1 (x) A2 (x) ...: the factors, each up to scale."""
    raws, outs = raw_nk(t), t["nk"]
    facs = []
    M = A.reshape(raws + outs)
    n = len(raws)
    for j in range(n):
        perm = [j, n + j] + [a for a in range(2 * n) if a not in (j, n + j)]
        R = M.transpose(perm).reshape(raws[j] * outs[j], -1)
        u, s, vt = np.linalg.svd(R, full_matrices=False)
        need(len(s) < 2 or s[1] < 1e-6 * s[0], f"{tag}: not a tensor product of its margins")
        facs.append((u[:, 0] * np.sqrt(s[0])).reshape(raws[j], outs[j]))
    return facs


def diffpen(n, m):
    D = np.diff(np.eye(n), m)
    return D @ D.T


def expected_pen(t, pen, A, ranges, tag):
    """Penalty of one copy, up to a positive factor when the second value is True."""
    k = pen["size"]
    if pen["kind"] == "ident":
        return np.eye(k), False
    if t["k"] == "irf":
        if t["dist"]:
            return np.diag([_dist(j + 1) for j in range(k)]), False
        return diffpen(k, t["ms"][0]), False
    nv = len(t["vars"])
    raws = raw_nk(t)

    def wiggle(pid):
        j, m = pid % nv, t["ms"][pid // nv]
        Sj = diffpen(raws[j], m)
        if nv == 1:
            return A.T @ Sj @ A, t["rp"] == 1
        if t["ident"] and not t["te"]:
            fac = kron_factors(t, A, tag)
            ms = [fac[j].T @ Sj @ fac[j] if a == j else np.eye(t["nk"][a]) for a in range(nv)]
            S = ms[0]
            for q in ms[1:]:
                S = np.kron(S, q)
            return S, True
        ms = []
        for a in range(nv):
            if a == j:
                ms.append(Sj)
            elif t["rp"] == 2:
                lo, hi = ranges[t["vars"][a]]
                grid = np.linspace(lo, hi, raws[a])
                E = basis(grid, lo, hi, raws[a])
                ms.append(E.T @ E)
            else:
                ms.append(np.eye(raws[a]))
        S = ms[0]
        for q in ms[1:]:
            S = np.kron(S, q)
        return A.T @ S @ A, True

    if pen["kind"] == "wiggle":
        return wiggle(pen["pid"])
    if pen["kind"] == "nullfun":
        S = np.zeros((k, k))
        j = k - (t["ms"][0] - (1 if t["ident"] else 0)) + pen["pid"]
        S[j, j] = 1
        return S, False
    # null space of the (summed) wiggliness penalties
    if nv == 1:
        tot, _ = wiggle(pen["pid"])
    else:
        tot = sum(s / np.linalg.eigvalsh(s)[-1] for s, _ in
                  (wiggle(q) for q in range(nv * len(t["ms"]))))
    e, U = np.linalg.eigh(tot)
    U = U[:, e < 1e-8 * e[-1]]
    return U @ U.T, False
