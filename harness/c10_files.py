"""C10: fitting from files equals fitting the concatenated frame (spec/Files.tla)."""

import multiprocessing as mp
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

from . import data_inst as di
from .c08_data import Bad, need
from .common import deadline, pmap, tla

INV = ["Once", "Dealt", "InOrder", "Coded", "Sound", "Clean", "NeverStale"]
REAL_POOL = mp.Pool


class Result:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class Pool:
    """Stands in for a pool of worker processes: the tasks run here, in an arbitrary order."""

    rng = np.random.default_rng(0)

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if initializer is not None:
            initializer(*initargs)

    def _run(self, calls):
        order = self.rng.permutation(len(calls))
        out = {}
        for k in order:
            out[int(k)] = calls[k]()
        return out

    def starmap(self, fn, it, chunksize=None):
        o = self._run([lambda a=a: fn(*a) for a in it])
        return [o[k] for k in range(len(o))]

    def map(self, fn, it, chunksize=None):
        o = self._run([lambda a=a: fn(a) for a in it])
        return [o[k] for k in range(len(o))]

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=1):
        return iter(list(self._run([lambda a=a: fn(a) for a in it]).values()))

    def apply(self, fn, args=(), kwds={}):
        return fn(*args, **kwds)

    def starmap_async(self, fn, it, *a, **k):
        return Result(self.starmap(fn, it))

    def map_async(self, fn, it, *a, **k):
        return Result(self.map(fn, it))

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        v = fn(*args, **kwds)
        if callback:
            callback(v)
        return Result(v)

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def behaviours(chk, n, misses, levels, used, files, workers, caching=(False,), given=None,
               free=False, rounds=1, names=("p", "p", "q", "r"), dirs=("d1", "d2", "d1", "d2")):
    fr = "{}"
    if given is not None:
        fr = "{" + ",\n".join("<<" + ", ".join(
            "[miss |-> %s, g |-> %s, file |-> %d]" % (tla(set(m)) if m else "{}", tla(g), f)
            for m, g, f in x) + ">>" for x in given) + "}"
    return chk.tlc(
        "Files",
        defs={"Kinds": di.kinds(misses, levels), "Used": tla(set(used)) if used else "{}",
              "Order": tla(di.ORDER), "Given": fr, "Workers": tla(set(workers)),
              "Caching": "{" + ", ".join(tla(c) for c in caching) + "}",
              "Names": tla(list(names)), "Dirs": tla(list(dirs)), "Free": tla(free)},
        consts={"N": str(n), "MaxFiles": str(files), "Rounds": str(rounds)}, spec="Spec",
        invariants=INV, heap="8g", workers=8 if free else 1).records


def write(rec, d, root, rng, kwargs):
    """The files of a behaviour; names coincide across directories."""
    files = sorted({r["file"] for r in rec["rows"]})
    out = []
    for k in files:
        dr = os.path.join(root, ("d1", "d2")[(k - 1) % 2])
        os.makedirs(dr, exist_ok=True)
        p = os.path.join(dr, f"part{(k - 1) // 2}.csv")
        sel = [r["file"] == k for r in rec["rows"]]
        sep = kwargs.get("sep", ",")
        dec = kwargs.get("decimal", ".")
        with open(p, "w") as fh:
            for _ in range(kwargs.get("skiprows", 0)):
                fh.write("a remark\n")
            d[sel].to_csv(fh, index=False, sep=sep, decimal=dec, na_rep=kwargs.get("na_values", ""))
        out.append(p)
    return out


def frame(rec, rng, smooth=False):
    n = len(rec["rows"])
    miss = [set(r["miss"]) for r in rec["rows"]]
    d = pd.DataFrame(index=range(n))
    for v in ("x", "z"):
        d[v] = np.round(rng.uniform(-2, 2, n), 4)
    g = [r["g"] for r in rec["rows"]]
    d["g"] = np.array(g, dtype=object)
    d["h"] = np.array([("u", "v")[int(k)] for k in rng.integers(0, 2, n)], dtype=object)
    d["k"] = rng.integers(-3, 9, n)
    d["y"] = np.round(np.sin(2 * d["x"]) + [len(g) and di.ORDER.index(v) for v in g]
                      + rng.normal(size=n) * 0.4, 4)
    for j, m in enumerate(miss):
        for v in m:
            d.loc[j, v] = np.nan
    return d


KW = [None, {"header": 0, "index_col": False}, {"sep": ";"}, {"sep": ";", "decimal": ","},
      {"na_values": "none"}, {"skiprows": 1}]


def terms(variant):
    from mssm.models import f, fs, i, l, li, ri, rs

    return {
        "lin": lambda: [i(), l(["x"]), ri("g")],
        "fac": lambda: [i(), l(["g"]), l(["x"])],
        "inter": lambda: [i(), *li(["g", "x"])],
        "smooth": lambda: [i(), f(["x"], nk=5), ri("g")],
        "by": lambda: [i(), l(["g"]), f(["x"], by="g", nk=5)],
        "by2": lambda: [i(), l(["g"]), f(["x"], by="g", nk=5), f(["z"], nk=4)],
        "te": lambda: [i(), f(["x", "z"], te=True, nk=[4, 4], rp=0)],
        "ti": lambda: [i(), f(["x"], nk=6), f(["z"], nk=6), f(["x", "z"], nk=[3, 3], rp=0)],
        "fs": lambda: [i(), f(["x"], nk=5), fs(["x"], rf="g", nk=4)],
        "fsby": lambda: [i(), fs(["x"], rf="g", nk=4, by_subgroup=("h", "u"))],
        "rs": lambda: [i(), l(["x"]), rs(["x", "g"])],
        "binary": lambda: [i(), f(["x"], nk=5), f(["x"], nk=5, binary=("h", "u"))],
        "null": lambda: [i(), f(["x"], nk=5, penalize_null=True), f(["k"], nk=4)],
    }[variant]()


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(
        np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0))))


def samebook(a, b):
    return a.keys() == b.keys() and all(
        (a[k] is None and b[k] is None) or np.array_equal(a[k], b[k]) for k in a)


def formulas(rec, variant, d, paths, kw, keep, book, series):
    from mssm.models import Formula, lhs

    cb = None
    if book:
        cb = {"g": {lv: j for j, lv in enumerate(reversed(rec["levels"]))}}
    sid = "ser" if series else None
    mem = Formula(lhs("y"), terms(variant), d, codebook=cb, series_id=sid, print_warn=False,
                  find_nested=keep)
    extra = {} if kw is None else {"file_loading_kwargs": kw}
    fil = Formula(lhs("y"), terms(variant), None, codebook=cb, series_id=sid, print_warn=False,
                  keep_cov=keep, file_paths=paths, file_loading_nc=rec["nc"], **extra)
    return mem, fil


def bound(rec, mem, fil, keep, book):
    """The formula over files describes the data like the formula over the frame."""
    if "g" in mem.get_factor_levels():
        lv = list(reversed(rec["levels"])) if book else rec["levels"]
        need(list(fil.get_factor_levels()["g"]) == lv,
             f"levels {list(fil.get_factor_levels()['g'])}, expected {lv}")
    need(fil.get_factor_codings() == mem.get_factor_codings(),
         f"codes {fil.get_factor_codings()}, expected {mem.get_factor_codings()}")
    need(samebook(fil.get_factor_levels(), mem.get_factor_levels()), "levels")
    need(fil.get_coding_factors() == mem.get_coding_factors(), "decoding")
    need(fil.get_var_map() == mem.get_var_map(), "columns of variables")
    need(fil.get_var_types() == mem.get_var_types(), "types of variables")
    need(samebook(fil.get_var_mins(), mem.get_var_mins()), 
         f"minima {fil.get_var_mins()}, expected {mem.get_var_mins()}")
    need(samebook(fil.get_var_maxs(), mem.get_var_maxs()),
         f"maxima {fil.get_var_maxs()}, expected {mem.get_var_maxs()}")
    need(fil.n_coef == mem.n_coef and list(fil.coef_names) == list(mem.coef_names)
         and list(fil.coef_per_term) == list(mem.coef_per_term)
         and fil.unpenalized_coef == mem.unpenalized_coef,
         f"coefficients {fil.coef_names}, expected {mem.coef_names}")
    if keep:
        need(np.array_equal(np.ravel(fil.NOT_NA_flat), np.ravel(mem.NOT_NA_flat)),
             f"retained rows {np.where(fil.NOT_NA_flat)[0]}, expected {np.where(mem.NOT_NA_flat)[0]}")
        k = np.ravel(mem.NOT_NA_flat)
        need(close(fil.cov_flat[k], mem.cov_flat[k]), "encoded predictors")
        need(close(np.ravel(fil.y_flat)[k], np.ravel(mem.y_flat)[k]), "response")
        need((fil.sid is None) == (mem.sid is None)
             and (mem.sid is None or np.array_equal(fil.sid, mem.sid)), "series")


def criterion(X, y, m, up=-1, by=0.0):
    """Restricted marginal likelihood (up to constants) at the smoothing parameters of m."""
    S = sum((p.lam * np.exp(by * (k == up)) * p.S_J_emb.toarray()
             for k, p in enumerate(m.overall_penalties)), np.zeros((X.shape[1],) * 2))
    U = sum((p.S_J_emb.toarray() / np.linalg.norm(p.S_J_emb.toarray()) for p in m.overall_penalties),
            np.zeros((X.shape[1],) * 2))
    w, V = np.linalg.eigh(U)
    V = V[:, w > 1e-9 * w.max()] if len(m.overall_penalties) else V[:, :0]
    A = X.T @ X + S
    b = np.linalg.solve(A, X.T @ y)
    k = len(y) - X.shape[1] + V.shape[1]
    q = float(((y - X @ b) ** 2).sum() + (b.T @ S @ b)[0, 0])
    return 0.5 * (k * np.log(q / k) + np.linalg.slogdet(A)[1] - np.linalg.slogdet(V.T @ S @ V)[1])


def slopes(X, y, m):
    e = 1e-3
    return np.array([(criterion(X, y, m, k, e) - criterion(X, y, m, k, -e)) / (2 * e)
                     for k, p in enumerate(m.overall_penalties) if p.lam < 9e6])


def fitted(rec, variant, d, mem, fil, tag):
    from mssm.models import GAMM
    from mssm.src.python.exp_fam import Gaussian

    a = GAMM(mem, Gaussian())
    a.fit(progress_bar=False, n_cores=1, method="Chol")
    b = GAMM(fil, Gaussian())
    b.fit(progress_bar=False, n_cores=rec["nc"])
    X = a.get_mmat().toarray()
    rows = [j - 1 for j in rec["order"]]
    y = d["y"].to_numpy()[rows].reshape(-1, 1)
    need(len(rows) == X.shape[0], f"{tag}: frame retains {X.shape[0]} rows, expected {len(rows)}")
    need(close(-b.scale * b.hessian.toarray(), X.T @ X, 1e-7),
         f"{tag}: cross-product of the files is not that of the frame")
    need(np.shape(b.preds[0]) == (len(rows), 1), f"{tag}: {np.shape(b.preds[0])} predictions")
    if a.info.code != 0 or b.info.code != 0:
        need(a.info.code == b.info.code or variant not in ("lin", "fac", "inter", "rs", "by"),
             f"{tag}: converges only {'from files' if b.info.code == 0 else 'from the frame'}")
        return "unconverged"
    need(close(b.preds[0], X @ b.coef, 1e-4), f"{tag}: predictions out of step with rows")
    need(close(b.res, y - X @ b.coef, 1e-4), f"{tag}: residuals out of step with rows")
    S = np.zeros((X.shape[1],) * 2)
    for p in b.overall_penalties:
        S += p.lam * p.S_J_emb.toarray()
    A = X.T @ X + S
    need(close(X @ b.coef, X @ np.linalg.solve(A, X.T @ y), 1e-4), f"{tag}: coefficients do not fit the rows")
    need(len(a.overall_penalties) == len(b.overall_penalties), f"{tag}: number of penalties")
    for p, q in zip(a.overall_penalties, b.overall_penalties):
        need(close(p.S_J_emb.toarray(), q.S_J_emb.toarray(), 1e-9), f"{tag}: penalty matrices")
    L = b.lvi.toarray()
    V = np.linalg.inv(A)
    need(close(L.T @ L, V, 1e-3), f"{tag}: covariance")
    # predictions for new data
    nd = d.iloc[rows].reset_index(drop=True)
    pr = np.ravel(b.predict(None, nd, ci=False)[0])
    need(close(pr, np.ravel(b.preds[0]), 1e-4), f"{tag}: predictions for the training rows")
    # the criterion may have several optima: rounding then decides which one is found
    for k in (1, 2):
        d2 = d.copy()
        d2["y"] = d["y"] + 1e-9 * np.random.default_rng(k).normal(size=len(d))
        from mssm.models import Formula, lhs

        m2 = Formula(lhs("y"), terms(variant), d2, print_warn=False, find_nested=fil.keep_cov)
        c = GAMM(m2, Gaussian())
        c.fit(progress_bar=False, n_cores=1, method="Chol")
        if c.info.code != 0 or abs(a.edf - c.edf) > 1e-4 * (1 + a.edf):
            return "ok_ambiguous"
    if abs(a.edf - b.edf) > 1e-3 * (1 + a.edf):
        # several optima or a flat criterion: both must have stopped where it is flat
        ga, gb = slopes(X, y, a), slopes(X, y, b)
        if np.max(np.abs(ga), initial=0) < 0.05:
            need(np.max(np.abs(gb), initial=0) < 0.1, f"{tag}: slopes {gb} at smoothing parameters "
                 f"{[p.lam for p in b.overall_penalties]}, frame gives {[p.lam for p in a.overall_penalties]}")
        return "ok_flat"
    need(abs(a.edf - b.edf) <= 1e-3 * (1 + a.edf), f"{tag}: edf {b.edf}, frame gives {a.edf}")
    need(abs(b.scale / a.scale - 1) < 1e-3, f"{tag}: scale {b.scale}, frame gives {a.scale}")
    need(close(b.preds[0], a.preds[0], 1e-3), f"{tag}: fitted values differ from the frame's")
    return "ok"


def replay(rec, variant, seed, fit, real=False):
    import mssm.src.python.gamm_solvers as gs

    rng = np.random.default_rng(seed)
    root = tempfile.mkdtemp(prefix="vp_c10_")
    here = os.getcwd()
    old = gs.SHOULD_CACHE, gs.CACHE_DIR
    try:
        d = frame(rec, rng)
        d["ser"] = [f"s{j // 3:03d}" for j in range(len(d))]
        kw = KW[rng.integers(len(KW))]
        paths = write(rec, d, root, rng, kw or {})
        os.chdir(root)
        if rng.random() < 0.3:
            paths = [os.path.relpath(p, root) for p in paths]
        cdir = os.path.join(root, "work", "cache")
        mp.Pool = REAL_POOL if real else Pool
        Pool.rng = rng
        gs.SHOULD_CACHE, gs.CACHE_DIR = bool(rec["caching"]), cdir
        os.makedirs(os.path.join(root, "work"))
        keep, book, series = bool(rng.integers(2)), rng.random() < 0.3, rng.random() < 0.3
        tag = f"{variant} nc {rec['nc']} keep_cov {keep} cache {rec['caching']} kwargs {kw}"
        before = {p: open(p).read() for p in paths}
        mem, fil = formulas(rec, variant, d, paths, kw, keep, book, series)
        bound(rec, mem, fil, keep, book)
        r = "bound"
        if fit:
            r = fitted(rec, variant, d, mem, fil, tag)
            need(not os.path.exists(cdir), f"{tag}: cache left behind")
            need(os.path.isdir(os.path.join(root, "work")),
                 f"{tag}: a directory that is not the cache was removed")
        need(before == {p: open(p).read() for p in paths}, f"{tag}: files changed")
        return r
    finally:
        os.chdir(here)
        gs.SHOULD_CACHE, gs.CACHE_DIR = old
        mp.Pool = REAL_POOL
        shutil.rmtree(root, ignore_errors=True)


def crash(rec, seed, at):
    """A fit crashes while blocks are cached; the next one, to other data, must not use them."""
    import mssm.src.python.gamm_solvers as gs
    from mssm.models import GAMM, Formula, lhs
    from mssm.src.python.exp_fam import Gaussian

    class Stop(Exception):
        pass

    class Failing(Gaussian):
        def __init__(self, at):
            super().__init__()
            self.left = at

        def deviance(self, *a, **k):
            self.left -= 1
            if self.left < 0:
                raise Stop
            return super().deviance(*a, **k)

    rng = np.random.default_rng(seed)
    root = tempfile.mkdtemp(prefix="vp_c10_")
    here = os.getcwd()
    old = gs.SHOULD_CACHE, gs.CACHE_DIR
    try:
        os.chdir(root)
        mp.Pool = Pool
        Pool.rng = rng
        cdir = os.path.join(root, "cache")
        gs.SHOULD_CACHE, gs.CACHE_DIR = True, cdir
        keep = bool(rng.integers(2))
        for k in (1, 2):
            d = frame(rec, rng)
            paths = write(rec, d, root, rng, {})
            mem = Formula(lhs("y"), terms("lin"), d, print_warn=False)
            fil = Formula(lhs("y"), terms("lin"), None, print_warn=False, keep_cov=keep,
                          file_paths=paths, file_loading_nc=rec["nc"])
            m = GAMM(fil, Failing(at) if k == 1 else Gaussian())
            try:
                m.fit(progress_bar=False, n_cores=rec["nc"])
            except Stop:
                continue
            except (ValueError, OSError):
                need(k == 2, "first fit refused")
                return "refused"
            if k == 1:
                return "finished"
            X = GAMM(mem, Gaussian())
            X.fit(progress_bar=False, max_outer=1)
            X = X.get_mmat().toarray()
            need(close(-m.scale * m.hessian.toarray(), X.T @ X, 1e-7)
                 and close(np.asarray(m.preds[0]), X @ m.coef, 1e-6),
                 "after a crash a fit uses blocks of another data set")
            return "fresh"
    finally:
        os.chdir(here)
        gs.SHOULD_CACHE, gs.CACHE_DIR = old
        mp.Pool = REAL_POOL
        shutil.rmtree(root, ignore_errors=True)


def solved(X, S, y):
    w, V = np.linalg.eigh(S)
    R = (V * np.sqrt(np.clip(w, 0, None))).T
    return np.linalg.lstsq(np.r_[X, R], np.r_[y, np.zeros((len(R), 1))], rcond=1e-13)[0]


def split(rec, variant, seed, real=False):
    """Building the matrix of a frame in several processes changes nothing; offsets survive."""
    from mssm.models import GAMM, Formula, f, i, irf, lhs
    from mssm.src.python.exp_fam import Gaussian

    rng = np.random.default_rng(seed)
    d = frame(rec, rng)
    n = len(d)
    d["ser"] = [f"s{j // 7:03d}" for j in range(n)]
    d["t"] = [j % 7 for j in range(n)]
    ons = [[int(rng.integers(0, 3))] for _ in range((n + 6) // 7)]

    def tt():
        if variant == "irf":
            return [i(), irf(["t"], ons, [{}], nk=5), f(["x"], nk=5)]
        return terms(variant)

    off = None
    if rng.random() < 0.4:
        off = np.round(rng.normal(size=(n, 1)), 3)
        d["y"] = np.round(d["y"]) if d["y"].isna().any() else np.round(d["y"]).astype(int)
    nc = int(rng.choice([2, 3, 5]))
    out = []
    try:
        Pool.rng = rng
        mp.Pool = REAL_POOL if real else Pool
        for k in (1, nc):
            F = Formula(lhs("y"), tt(), d, print_warn=False, series_id="ser" if variant == "irf" else None,
                        file_loading_nc=k)
            m = GAMM(F, Gaussian())
            m.fit(progress_bar=False, n_cores=1, method="Chol", offset=None if off is None else off.copy())
            out.append(m)
    finally:
        mp.Pool = REAL_POOL
    a, b = out
    tag = f"{variant} in memory, {nc} processes, offset {off is not None}"
    X = a.get_mmat().toarray()
    need(X.shape[0] == len(rec["order"]), f"{tag}: {X.shape[0]} rows")
    need(close(-b.scale * b.hessian.toarray(), X.T @ X, 1e-7), f"{tag}: cross-product")
    need(close(b.coef, a.coef, 1e-6) and close(b.preds[0], a.preds[0], 1e-6), f"{tag}: fit differs")
    if off is not None and a.info.code == 0:
        rows = [j - 1 for j in rec["order"]]
        S = sum((p.lam * p.S_J_emb.toarray() for p in a.overall_penalties), np.zeros((X.shape[1],) * 2))
        y = d["y"].to_numpy(float)[rows].reshape(-1, 1) - off[rows]
        need(close(X @ a.coef, X @ solved(X, S, y), 1e-4), f"{tag}: offset is not used")
        need(close(a.preds[0], X @ a.coef + off[rows], 1e-4), f"{tag}: predictions lack the offset")
    return "ok_split"


def sampled(rng, count, n, files, hole=0.15, miss=(("y",), ("x",), ("g",), ("x", "y"))):
    out = []
    for _ in range(count):
        k = int(rng.integers(1, files + 1))
        at = np.sort(rng.integers(0, n, k - 1)) if k > 1 else []
        f, rows, empty = 1, [], (int(rng.integers(1, k + 1)) if rng.random() < 0.25 else 0)
        # lopsided occurrence of levels in files, so that scanning order matters
        first = rng.permutation(3)
        for j in range(n):
            new = 1 + int(np.sum(np.asarray(at) < j)) if k > 1 else 1
            f = max(f, min(new, f + 1))
            g = di.ORDER[first[0] if rng.random() < 0.4 and f == 1 else rng.integers(3)]
            m = miss[rng.integers(len(miss))] if rng.random() < hole or f == empty else ()
            rows.append((m, g, f))
        out.append(rows)
    return out


def run(chk):
    import mssm.models  # noqa: F401

    warnings.simplefilter("ignore")
    q = chk.quick
    rng = np.random.default_rng(chk.seed)
    # every schedule of workers, with and without cache and crashes
    behaviours(chk, 3 if q else 4, [(), ("x",)], ["a", "b"], ["x", "g"], 3, [1, 2], (False, True),
               free=True, rounds=2)
    jobs = []
    # all ways to deal rows to files: binding only
    fams = [(5, [(), ("x",)], ["a"], ["x"], 3), (4, [(), ("g",), ("y",)], ["a", "b"], ["g"], 2)]
    if not q:
        fams += [(6, [(), ("x",)], ["a"], ["x"], 4), (4, [(), ("x",), ("g",)], ["a", "b"], ["x"], 3)]
    for n, miss, lev, used, nf in fams:
        recs = behaviours(chk, n, miss, lev, ["x", "g"], nf, [2])
        recs = [r for r in recs if r["order"] and len(r["levels"])
                and all(any(w["file"] == k and ("g" not in w["miss"]) for w in r["rows"])
                        for k in {w["file"] for w in r["rows"]})]
        if q and len(recs) > 1500:
            recs = [recs[k] for k in sorted(rng.choice(len(recs), 1500, replace=False))]
        jobs += [("bind", r, "lin") for r in recs]
        chk.count("bindings", len(recs))
    # sampled data sets, fitted
    k = 4 if q else 16
    for variant in ("lin", "fac", "inter", "smooth", "by", "by2", "te", "ti", "fs", "fsby", "rs",
                    "binary", "null"):
        used = {"fac": ["x", "g"], "te": ["x"], "ti": ["x"], "null": ["x"], "binary": ["x"]}.get(
            variant, ["x", "g"])
        n = 40 if variant in ("lin", "fac", "inter", "rs") else 70
        miss = tuple(m for m in (("y",), ("x",), ("g",), ("x", "y"))
                     if "g" not in m or "g" in used)
        fr = sampled(rng, k, n, 4, miss=miss)
        recs = []
        for w in ([1, 3], [2, 8]):
            recs += behaviours(chk, 0, [()], ["a"], used, 4, w, (False, True), fr)
        recs = [r for r in recs if len(r["order"]) > n // 2 and all(any(w["file"] == j and "g" not in w["miss"] for w in r["rows"])
                                       for j in {w["file"] for w in r["rows"]})]
        if q:
            recs = recs[:: 2]
        jobs += [("fit", r, variant) for r in recs]
        chk.count("fits_" + variant, len(recs))
    real = [j for j in range(len(jobs)) if jobs[j][0] == "fit"][:: 24 if q else 12]
    jobs += [("real", *jobs[j][1:]) for j in real]
    chk.count("fits_real_pool", len(real))
    by = {}
    for j in jobs:
        if j[0] == "fit":
            by.setdefault(j[2], []).append(j[1])
    sp = [("split", r, v) for v in by for r in by[v][: 2 if q else 8]]
    sp += [("split", r, "irf") for r in by["null"][: 4 if q else 12]]
    jobs += sp + [("splitreal", *j[1:]) for j in sp[:: 9]]
    chk.count("in_memory_splits", len(sp))
    cr = behaviours(chk, 0, [()], ["a"], ["x", "g"], 3, [1, 2], (True,), sampled(rng, 3 if q else 12, 20, 3, 0.0))
    cr = [r for r in cr if len(r["order"]) > 10]
    jobs += [("crash", r, at) for r in cr for at in (0, 1, 2)]
    chk.count("crashes", 3 * len(cr))

    def work(w):
        out, un = [], {}
        for j in range(w, len(jobs), 8):
            kind, rec, variant = jobs[j]
            try:
                with deadline(120):
                    if kind == "crash":
                        r = "crash_" + str(crash(rec, chk.seed + j, variant))
                    elif kind.startswith("split"):
                        r = split(rec, variant, chk.seed + j, kind == "splitreal")
                    else:
                        r = replay(rec, variant, chk.seed + j, kind != "bind", kind == "real")
                un[r] = un.get(r, 0) + 1
            except ArithmeticError as e:
                if variant == "irf":  # shifted responses may be collinear with the intercept
                    un["unidentifiable"] = un.get("unidentifiable", 0) + 1
                else:
                    out.append((j, "raises", f"{variant} {e}"))
            except Bad as e:
                out.append((j, kind, str(e)))
            except Exception as e:  # noqa: BLE001
                import traceback

                out.append((j, "raises", f"{variant} {type(e).__name__}: {e} {traceback.format_exc()[-500:]}"))
        return out, un

    for part, un in pmap(work, 8):
        for r, c in un.items():
            chk.count("result_" + r, c)
        for j, clause, msg in part:
            chk.violation(clause, f"nc {jobs[j][1]['nc']}, rows {jobs[j][1]['rows'][:8]}: {msg}",
                          replay={"kind": jobs[j][0], "record": jobs[j][1], "variant": jobs[j][2],
                                  "seed": chk.seed + j})
    chk.ok(len(jobs))
    for j in (0, -1):
        chk.sample({"kind": jobs[j][0], "rows": jobs[j][1]["rows"][:8], "order": jobs[j][1]["order"][:8]})
    chk.assumptions += ["every file shows a level of each factor, so that pandas recognises its type",
                        "fits that report non-convergence are not judged"]
