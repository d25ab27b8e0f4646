"""C08: encoding of data frames (spec/Data.tla replayed into real formulas)."""

import numpy as np

from . import data_inst as di
from .common import pmap

ALL = [(), ("y",), ("x",), ("g",), ("w",), ("x", "g")]


class Bad(Exception):
    pass


def need(c, m):
    if not c:
        raise Bad(m)


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def terms(used):
    from mssm.models import i, l, ri

    t = [i()]
    if "x" in used:
        t.append(l(["x"]))
    if "w" in used:
        t.append(l(["w"]))
    if "g" in used:
        t.append(ri("g"))
    return t


def make(d, used, book, series=True, y="y"):
    from mssm.models import Formula, lhs

    cb = {"g": {lv: j for j, lv in enumerate(book)}} if book else None
    return Formula(lhs(y), terms(used), d, series_id="ser" if series else None, codebook=cb,
                   print_warn=False)


def check(rec, used, book, seed):
    from mssm.models import GAMM
    from mssm.src.python.exp_fam import Gaussian
    from mssm.src.python.formula import build_model_matrix, build_penalties

    rng = np.random.default_rng(seed)
    d = di.frame(rec, rng)
    before = d.copy(deep=True)
    n = len(d)
    rows = [e["row"] - 1 for e in rec["kept"]]
    mask = np.zeros(n, bool)
    mask[rows] = True
    for series in (True, False):
        F = make(d, used, book, series)
        need(before.equals(d) and list(before.columns) == list(d.columns)
             and before.index.equals(d.index), "the data frame was changed")
        need(np.array_equal(np.asarray(F.NOT_NA_flat).flatten(), mask),
             f"retained rows {np.where(F.NOT_NA_flat)[0]}, expected {rows}")
        y = d["y"].to_numpy()
        need(same(np.asarray(F.y_flat).flatten(), y), "response values")
        vm = F.get_var_map()
        need(set(vm) == set(used) and sorted(vm.values()) == list(range(len(used))),
             f"variables {vm}")
        for v in used:
            col = F.cov_flat[:, vm[v]]
            if v != "g":
                need(same(col[rows], d[v].to_numpy()[rows]), f"values of {v}")
                need(F.get_var_mins()[v] == np.nanmin(d[v]) and
                     F.get_var_maxs()[v] == np.nanmax(d[v]), f"range of {v}")
            else:
                need(same(col[rows], [e["code"] for e in rec["kept"]]),
                     f"codes {col[rows]}, expected {[e['code'] for e in rec['kept']]}")
                need(list(F.get_factor_levels()["g"]) == rec["codes"],
                     f"levels {F.get_factor_levels()['g']}, expected {rec['codes']}")
                need(F.get_factor_codings()["g"] == {lv: j for j, lv in enumerate(rec["codes"])},
                     f"coding {F.get_factor_codings()['g']}")
                need(F.get_coding_factors()["g"] == {j: lv for j, lv in enumerate(rec["codes"])},
                     "decoding")
        # series
        if series:
            s = [r["s"] for r in rec["rows"]]
            first = [j for j in range(n) if j == 0 or s[j] != s[j - 1]]
            need(list(F.sid) == first, f"series start at {F.sid}, expected {first}")
            cut = first[1:]
            for part, whole, what in ((F.y, y.reshape(-1, 1), "y"),
                                      (F.NOT_NA, mask, "retained"),
                                      (F.cov, F.cov_flat, "covariates")):
                ref = np.split(np.asarray(whole, float), cut)
                need(len(part) == len(ref) and all(same(a, b) for a, b in zip(part, ref)),
                     f"{what} by series")
        # what the model is fitted to
        build_penalties(F)
        X = build_model_matrix(F).toarray()
        cols = [np.ones(len(rows))]
        for v in ("x", "w"):
            if v in used:
                cols.append(d[v].to_numpy()[rows].astype(float))
        if "g" in used:
            for lv in rec["codes"]:
                cols.append((d["g"].to_numpy()[rows] == lv).astype(float))
        want = np.array(cols).T
        need(same(X, want), "model matrix of the retained rows")
        m = GAMM(F, Gaussian())
        need(same(np.asarray(m.get_ys()).flatten(), y[rows]), "response of the retained rows")
        need(same(m.get_mmat().toarray(), want), "model matrix of the model")
        # new data keeps the training codes
        if "g" in used:
            import pandas as pd

            fresh = list(rng.permutation(list(rec["fresh"])))
            nd = pd.DataFrame({"g": np.array(fresh + [None], dtype=object)})
            nd["x"] = np.linspace(0.1, 1, len(nd))
            nd["w"] = np.arange(len(nd))
            nb = nd.copy(deep=True)
            enc = F.encode_data(nd.assign(ser="q") if series else nd, prediction=True)
            got = enc[1][:, vm["g"]]
            exp = [np.nan if rec["fresh"][lv] == 99 else rec["fresh"][lv] for lv in fresh] + [np.nan]
            need(same(got, exp), f"codes of new data {got}, expected {exp}")
            need(len(got) == len(nd), "rows of new data dropped")
            need(nb.equals(nd), "new data frame was changed")
            need(list(F.get_factor_levels()["g"]) == rec["codes"], "new data changed the coding")


def joint(rec, used, seed):
    """Two formulas with different variables: both describe the rows complete in either."""
    from mssm.models import GAMMLSS
    from mssm.src.python.exp_fam import GAUMLSS, LOG, Identity
    from mssm.src.python.formula import build_penalties

    rng = np.random.default_rng(seed)
    d = di.frame(rec, rng)
    rows = [e["row"] - 1 for e in rec["kept"]]
    a, b = (["x"], ["w"]) if rng.random() < 0.5 else (["w"], ["x"])
    Fs = [make(d, a, (), False), make(d, b, (), False)]
    m = GAMMLSS(Fs, GAUMLSS([Identity(), LOG()]))
    for F in m.formulas:
        build_penalties(F)
    need(same(m.get_ys().flatten(), d["y"].to_numpy()[rows]), "joint: response rows")
    for par, v in enumerate((a[0], b[0])):
        X = m.get_mmat(par=par).toarray()
        need(X.shape == (len(rows), 2) and same(X[:, 1], d[v].to_numpy()[rows]),
             f"joint: rows of parameter {par}")
    Xs = m.get_mmat()
    need(len(Xs) == 2 and all(x.shape[0] == len(rows) for x in Xs), "joint: matrices")


def run(chk):
    import mssm.models  # noqa: F401

    q = chk.quick
    fams = [
        # n, used, missing patterns, levels, book, kind
        (3, ["x", "w", "g"], ALL, ["a", "b"], (), check),
        (3, ["g"], ALL, ["a", "c"], (), check),
        (3, ["x"], [(), ("y",), ("x",), ("g",)], ["b"], (), check),
        (4, ["x", "g"], [(), ("y",), ("g",)], ["a", "c"], (), check),
        (3, ["x", "g"], [(), ("y",), ("g",)], ["a", "b"], ("b", "a"), check),
        (4, ["g"], [(), ("y",)], ["a", "b", "c"], ("c", "a", "b"), check),
        (4, ["x", "w"], [(), ("x",), ("w",), ("y",), ("x", "w")], ["a"], (), joint),
    ]
    if not q:
        fams += [
            (4, ["x", "w", "g"], [(), ("y",), ("x",), ("g",), ("w",)], ["a", "b"], (), check),
            (4, ["x", "g"], [(), ("y",), ("x",), ("g",)], ["a", "b", "c"], ("b", "c", "a"), check),
            (6, ["x"], [(), ("x",)], ["a"], (), check),
            (5, ["x", "w"], [(), ("x",), ("w",), ("x", "w")], ["a"], (), joint),
        ]
    jobs = []
    for n, used, miss, lev, book, fn in fams:
        recs = di.behaviours(chk, n, used, miss, lev, book)
        jobs += [(r, used, book, fn) for r in recs]
        chk.count("frames_" + ("joint" if fn is joint else "".join(used) + ("_coded" if book else "")),
                  len(recs))
    rng = np.random.default_rng(chk.seed)
    # longer frames
    frames = []
    for _ in range(60 if q else 400):
        n, s, f = int(rng.integers(8, 20)), 1, []
        for j in range(n):
            if j and rng.random() < 0.3:
                s += 1
            f.append((ALL[rng.integers(len(ALL))] if rng.random() < 0.4 else (),
                      di.ORDER[rng.integers(3)], s))
        frames.append(f)
    recs = di.behaviours(chk, 0, ["x", "w", "g"], ALL, di.ORDER, (), frames)
    jobs += [(r, ["x", "w", "g"], (), check) for r in recs]
    chk.count("frames_long", len(recs))

    def work(w):
        out = []
        for j in range(w, len(jobs), 8):
            rec, used, book, fn = jobs[j]
            try:
                if fn is joint:
                    joint(rec, used, chk.seed + j)
                else:
                    if "x" in used and all("x" in r["miss"] for r in rec["rows"]):
                        continue
                    check(rec, used, book, chk.seed + j)
            except Bad as e:
                out.append((j, "encoding", str(e)))
            except Exception as e:  # noqa: BLE001
                import traceback

                out.append((j, "raises", f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}"))
        return out

    for part in pmap(work, 8):
        for j, clause, msg in part:
            rec, used, book, fn = jobs[j]
            chk.violation(clause, f"used {used} book {book} rows {rec['rows']}: {msg}",
                          replay={"record": rec, "used": used, "book": book,
                                  "seed": chk.seed + j})
    chk.ok(len(jobs))
    for j in (0, len(jobs) // 2, -1):
        chk.sample({"rows": jobs[j][0]["rows"], "kept": jobs[j][0]["kept"]})
    chk.assumptions += ["series are contiguous; numeric columns are float64/int64, factors objects",
                        "a codebook lists exactly the levels of the data"]
