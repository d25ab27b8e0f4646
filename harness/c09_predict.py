"""C09: answers of fitted models (spec/Predict.tla replayed into predict, predict_diff, ...)."""

import warnings

import numpy as np
import scipy as scp

from . import zoo
from .c08_data import Bad, need
from .common import deadline, pmap, tla

INV = ["Own", "Aligned", "Whole", "Additive", "Covered", "Same", "Seeded"]
OPS = ["predict", "ci", "whole", "diff", "diffwhole", "sample", "deviate", "pars", "mmat"]
FRAMES = ["perm", "held", "level", "mixed"]
ALPHA = 0.1
NPS = 4000


def behaviours(chk, layout, extra, ops, frames, seeds, depth, subsets=(), asks=(), simulate=None):
    lay = "<<" + ", ".join("<<" + ", ".join(f"[term |-> {t}, cols |-> {c}]" for t, c in p) + ">>"
                           for p in layout) + ">>"
    defs = {"Layout": lay, "Ops": tla(set(ops)), "Frames": tla(set(frames)),
            "Seeds": "{" + ", ".join(map(str, seeds)) + "}",
            "Subsets": "{" + ", ".join("{" + ", ".join(map(str, sorted(s))) + "}" for s in subsets) + "}",
            "Asks": "{" + ",\n".join(
                "[op |-> %s, par |-> %d, all |-> %s, use |-> {%s}, dat |-> %s, ref |-> %s, seed |-> %d]"
                % (tla(a["op"]), a["par"], tla(a["all"]), ", ".join(map(str, a["use"])), tla(a["dat"]),
                   tla(a["ref"]), a["seed"]) for a in asks) + "}"}
    return chk.tlc("Predict", defs=defs, consts={"Extra": str(extra), "Depth": str(depth)}, spec="Spec",
                   invariants=INV, properties=["Inert"], workers=1, simulate=simulate).records


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(
        np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0))))


def dense(a):
    return None if a is None else a.toarray() if scp.sparse.issparse(a) else np.array(a, float)


class Subject:
    """A fitted model together with everything answers are computed from."""

    def __init__(self, name, seed):
        from mssm.models import GAMM, GSMM

        self.name, self.seed = name, seed
        e = self.e = zoo.ZOO[name](seed)
        e.fit()
        m = self.m = e.model
        self.gamm = isinstance(m, GAMM)
        self.coef = np.array(m.coef, float).ravel()
        if self.gamm:
            self.X = [dense(GSMM.get_mmat(m, drop_NA=False, par=0))]
        else:
            self.X = [dense(GSMM.get_mmat(m, drop_NA=False, par=p)) for p in range(len(e.layout))]
        n = len(self.coef)
        S = np.zeros((n, n))
        for p in m.overall_penalties:
            S += p.lam * dense(p.S_J_emb)
        scale = float(m.scale) if self.gamm else 1.0
        A = -dense(m.hessian) + S / scale
        keep = np.ones(n, bool)
        if m.info.dropped is not None:
            keep[np.asarray(m.info.dropped, int)] = False
        self.V = np.zeros((n, n))
        self.V[np.ix_(keep, keep)] = np.linalg.inv(A[np.ix_(keep, keep)])
        rng = np.random.default_rng(seed + 77)
        tr = np.where(~e.out)[0]
        held = np.where(e.out)[0] if e.out.any() else tr[::2]
        g = np.where(e.d["g"] == "c")[0]
        self.rows = {"perm": rng.permutation(tr)[:12], "held": held[:12], "level": rng.choice(g, 12),
                     "mixed": rng.choice(len(e.d), 12)}
        self.new = {}
        for k, r in self.rows.items():
            d = e.d.iloc[r].copy()
            if k != "perm":
                d = d.reset_index(drop=True)
            if k in ("level", "mixed"):
                d = d[[c for c in d.columns if c not in ("y", "y0", "y1", "delta", "eta")][::-1]].copy()
                d["extra"] = ["?"] * len(d)
            self.new[k] = d

    def matrix(self, r, frame):
        """Rows of the frame, with columns of other terms set to zero."""
        p = r["ask"]["par"] - 1
        M = np.zeros((len(self.rows[frame]), self.X[p].shape[1]))
        c = [k - 1 for k in r["cols"]]
        M[:, c] = self.X[p][self.rows[frame]][:, c]
        return M

    def block(self, p):
        s = sum(x.shape[1] for x in self.X[:p])
        return np.arange(s, s + self.X[p].shape[1])

    def observe(self):
        m = self.m
        o = [np.array(m.coef, float), dense(m.lvi), dense(m.hessian), np.atleast_1d(m.edf),
             np.array(m.term_edf, float) if m.term_edf is not None else 0,
             np.array([p.lam for p in m.overall_penalties]), np.atleast_1d(float(m.scale))]
        o += [np.array(p, float) for p in m.preds]
        for F in m.formulas:
            o += [np.array(F.cov_flat, float), np.array(F.y_flat, float), repr(F.get_factor_codings()),
                  repr(F.get_var_map()), repr(list(F.coef_names)), repr(sorted(F.get_var_mins().items(), key=str))]
        o += [self.e.d.copy(deep=True)] + [d.copy(deep=True) for d in self.new.values()]
        return o


def unchanged(a, b):
    for x, y in zip(a, b):
        if isinstance(x, str):
            if x != y:
                return False
        elif hasattr(x, "equals"):
            if not (x.equals(y) and list(x.columns) == list(y.columns) and list(x.index) == list(y.index)):
                return False
        elif not np.array_equal(np.asarray(x, float), np.asarray(y, float), equal_nan=True):
            return False
    return True


def ask(s, r):
    a = r["ask"]
    m, p = s.m, a["par"] - 1
    use = None if a["all"] else [int(t) for t in a["use"]]
    seed = None if a["seed"] == 0 else a["seed"]
    kw = {} if s.gamm else {"par": p}
    if a["op"] == "predict":
        return m.predict(use, s.new[a["dat"]], **kw)
    if a["op"] == "ci":
        return m.predict(use, s.new[a["dat"]], alpha=ALPHA, ci=True, **kw)
    if a["op"] == "whole":
        return m.predict(use, s.new[a["dat"]], alpha=ALPHA, ci=True, whole_interval=True, n_ps=NPS,
                         seed=seed, **kw)
    if a["op"] == "diff":
        return m.predict_diff(s.new[a["dat"]], s.new[a["ref"]], use, alpha=ALPHA, **kw)
    if a["op"] == "diffwhole":
        return m.predict_diff(s.new[a["dat"]], s.new[a["ref"]], use, alpha=ALPHA, whole_interval=True,
                              n_ps=NPS, seed=seed, **kw)
    if a["op"] in ("sample", "deviate"):
        c = None if a["all"] else [k - 1 for k in sorted(r["cols"])]
        return (np.asarray(m.sample_post(NPS, c, deviations=a["op"] == "deviate", seed=seed, **kw)),)
    if a["op"] == "pars":
        t = None if a["all"] else int(a["use"][0])
        o = m.get_pars(term=t, **kw)
        return (o[0] if s.gamm else o,)
    return (m.get_mmat(use_terms=use, **kw),)


def judge(s, r, got, rng):
    a = r["ask"]
    p = a["par"] - 1
    b = s.block(p)
    beta = s.coef[b]
    V = s.V[np.ix_(b, b)]
    cols = [k - 1 for k in sorted(r["cols"])]
    need([int(b[c]) + 1 for c in cols] == sorted(r["coefs"]), "layout of coefficients")
    tag = f"{a['op']} of parameter {p} for terms {a['use']}"
    if a["op"] == "pars":
        need(close(np.ravel(got[0]), beta[cols], 1e-12), f"{tag}: {np.ravel(got[0])}, expected {beta[cols]}")
        return
    if a["op"] == "mmat":
        M = np.zeros_like(s.X[p])
        M[:, cols] = s.X[p][:, cols]
        need(close(dense(got[0]), M[~s.e.out], 1e-12), f"{tag}: columns of other terms")
        return
    if a["op"] in ("sample", "deviate"):
        g = got[0]
        need(g.shape == (len(cols), NPS), f"{tag}: shape {g.shape}")
        if not cols:
            return
        mu = beta[cols] if a["op"] == "sample" else np.zeros(len(cols))
        U = V[np.ix_(cols, cols)]
        sd = np.sqrt(np.diag(U))
        z = sd > 0
        need(np.allclose(g[~z], mu[~z, None]), f"{tag}: coefficients without uncertainty")
        if not z.any():
            return
        D = (g[z] - mu[z, None]) / sd[z, None]
        k = np.sqrt(NPS)
        need(np.all(np.abs(D.mean(1)) < 7 / k), f"{tag}: mean is off by {np.abs(D.mean(1)).max() * k:.1f} se")
        R = U[np.ix_(z, z)] / np.outer(sd[z], sd[z])
        E = D @ D.T / NPS
        need(np.all(np.abs(E - R) < 7 * np.sqrt(1 + R ** 2) / k),
             f"{tag}: covariance is off by {np.max(np.abs(E - R) * k / np.sqrt(1 + R ** 2)):.1f} se")
        return
    M = s.matrix(r, a["dat"])
    if a["op"] in ("diff", "diffwhole"):
        M = M - s.matrix(r, a["ref"])
    need(close(np.ravel(got[0]), M @ beta, 1e-8), f"{tag}: {np.ravel(got[0])[:4]}, expected {(M @ beta)[:4]}")
    if a["op"] in ("predict", "ci", "whole"):
        need(close(dense(got[1]), M, 1e-10), f"{tag}: matrix")
        if a["op"] == "predict":
            need(got[2] is None, f"{tag}: bounds that were not asked for")
            return
    bound = np.ravel(got[2] if len(got) > 2 else got[1])
    se = np.sqrt(np.clip(np.einsum("ij,jk,ik->i", M, V, M), 0, None))
    want = se * scp.stats.norm.ppf(1 - ALPHA / 2)
    if "whole" in a["op"]:
        u = se > 1e-6 * (1 + se.max(initial=0))
        if not u.any():
            need(np.all(np.abs(bound) < 1e-5), f"{tag}: bounds {bound}")
            return
        C = M[u] @ V @ M[u].T
        w, Q = np.linalg.eigh(C)
        D = (Q * np.sqrt(np.clip(w, 0, None))) @ rng.normal(size=(len(C), 20000))
        want = want * np.quantile(np.max(np.abs(D) / want[u, None], axis=0), 1 - ALPHA)
        need(np.all(np.abs(bound - want) <= 0.08 * want + 1e-6), f"{tag}: bounds {bound[:4]}, expected about {want[:4]}")
        return
    need(np.all(np.abs(bound - want) <= 1e-4 * (want.max(initial=0)) + 1e-9 + 1e-3 * want),
         f"{tag}: bounds {bound[:4]}, expected {want[:4]}")


def replay(s, rec, rng):
    before = s.observe()
    seen = {}
    for r in rec["log"]:
        if r["ask"]["op"] == "end":
            continue
        got = ask(s, r)
        judge(s, r, got, rng)
        if r["from"] != 0:
            key = repr(sorted((k, repr(v)) for k, v in r["ask"].items()))
            val = [dense(g) if g is not None else None for g in got]
            if key in seen:
                eq = all((x is None and y is None) or np.array_equal(x, y, equal_nan=True)
                         for x, y in zip(seen[key][1], val))
                if r["from"] < 1000:
                    need(eq, f"{r['ask']['op']}: same seed, other answer")
                elif r["ask"]["op"] in ("sample", "deviate") and r["cols"] and np.ptp(val[0]) > 0:
                    need(not eq, f"{r['ask']['op']}: two draws are identical")
            seen[key] = (r["from"], val)
    need(unchanged(before, s.observe()), f"a question changes the model: {[r['ask']['op'] for r in rec['log']]}")


def run(chk):
    warnings.simplefilter("ignore")
    q = chk.quick
    rng = np.random.default_rng(chk.seed)
    names = list(zoo.ZOO)
    jobs = []
    for j, name in enumerate(names):
        e = zoo.ZOO[name](chk.seed + j)
        big = sum(len(p) for p in e.layout) > 5
        recs = behaviours(chk, e.layout, e.extra, OPS, FRAMES, [3], 1)
        if q and len(recs) > 260:
            recs = [recs[k] for k in sorted(rng.choice(len(recs), 260, replace=False))]
        elif len(recs) > 2500:
            recs = [recs[k] for k in sorted(rng.choice(len(recs), 2500, replace=False))]
        one = len(recs)
        # histories: questions with and without seeds, repeated
        asks, sub = [], []
        for p, lay in enumerate(e.layout):
            T = [t for t, _ in lay]
            sub.append((p + 1, T, True))
            sub.append((p + 1, [T[int(rng.integers(len(T)))]], False))
        for p, u, al in sub:
            for op, seed in (("sample", 0), ("sample", 5), ("deviate", 5), ("whole", 5), ("ci", 3), ("pars", 3)):
                asks.append({"op": op, "par": p, "all": al, "use": u, "dat": "perm", "ref": "perm", "seed": seed})
        k = [asks[i] for i in sorted(rng.choice(len(asks), min(len(asks), 5 if q else 7), replace=False))]
        recs += behaviours(chk, e.layout, e.extra, OPS, FRAMES, [0, 3, 5], 3 if big or q else 3, asks=k)
        chk.count("single_questions", one)
        chk.count("histories", len(recs) - one)
        # in portions, each on its own copy of the model
        for c in range(0, len(recs), 200):
            jobs.append((name, chk.seed + j, recs[c:c + 200]))

    def work(w):
        out, n = [], 0
        for j in range(w, len(jobs), 8):
            name, seed, recs = jobs[j]
            try:
                with deadline(200):
                    s = Subject(name, seed)
                    need(close(dense(s.m.lvi.T @ s.m.lvi) * (float(s.m.scale) if s.gamm else 1), s.V, 1e-3),
                         "covariance of coefficients is not that of the reported curvature and penalty")
                    for p in range(len(s.X)):
                        tr = s.X[p][~s.e.out] @ s.coef[s.block(p)]
                        need(close(np.ravel(s.m.preds[p]), tr, 1e-4), f"fitted predictor of parameter {p}")
                r2 = np.random.default_rng(seed)
                for rec in recs:
                    n += 1
                    try:
                        with deadline(60):
                            replay(s, rec, r2)
                    except Bad as ex:
                        out.append((name, seed, rec, "answer", str(ex)))
                    except Exception as ex:  # noqa: BLE001
                        import traceback

                        out.append((name, seed, rec, "raises",
                                    f"{type(ex).__name__}: {ex} {traceback.format_exc()[-400:]}"))
            except Bad as ex:
                out.append((name, seed, None, "fit", str(ex)))
            except Exception as ex:  # noqa: BLE001
                out.append((name, seed, None, "raises", f"{type(ex).__name__}: {ex}"))
        return out, n

    for part, n in pmap(work, 8):
        chk.ok(n)
        for name, seed, rec, clause, msg in part:
            asked = [r["ask"] for r in rec["log"] if r["ask"]["op"] != "end"] if rec else None
            chk.violation(clause, f"{name}: {msg}; history {asked}",
                          replay={"model": name, "seed": seed, "history": rec})
    chk.count("models", len(names))
    for name, seed, recs in jobs[:2]:
        chk.sample({"model": name, "history": recs[0]})
    chk.assumptions += ["new rows have known factor levels and lie in the range of the training data",
                        "the model matrix of the formula is right (C06)"]
