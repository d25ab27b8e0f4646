"""C11: Cox risk sets (spec/Cox.tla). Every follow-up TLC enumerates is replayed into PropHaz."""

import numpy as np
import scipy as scp

from .common import pmap, tla

P = 3
OPS = ["llk", "gradient", "hessian", "hazard", "survival", "martingale", "deviance"]


class Oracle:
    """All quantities from the follow-up record of the specification."""

    def __init__(self, rec, X, V):
        self.rec, self.X, self.V = rec, X, V
        self.n = len(rec["time"])
        self.risk = [[i - 1 for i in e["risk"]] for e in rec["log"]]
        self.ev = [[i - 1 for i in e["ev"]] for e in rec["log"]]
        self.t = [e["t"] for e in rec["log"]]

    def llk(self, b):
        eta = self.X @ b
        return sum(eta[e].sum() - len(e) * scp.special.logsumexp(eta[r])
                   for r, e in zip(self.risk, self.ev) if e)

    def gradient(self, b):
        g = np.zeros(P)
        for r, e in zip(self.risk, self.ev):
            w = scp.special.softmax(self.X[r] @ b)
            g += self.X[e].sum(0) - len(e) * (w @ self.X[r])
        return g

    def hessian(self, b):
        H = np.zeros((P, P))
        for r, e in zip(self.risk, self.ev):
            w = scp.special.softmax(self.X[r] @ b)
            m = w @ self.X[r]
            H -= len(e) * (self.X[r].T @ (w[:, None] * self.X[r]) - np.outer(m, m))
        return H

    def parts(self, b, t):
        """Cumulative hazard, its variance part and gradient part up to time t."""
        h, q, a = 0.0, 0.0, np.zeros(P)
        for tk, r, e in zip(self.t, self.risk, self.ev):
            if tk <= t and e:
                g = np.exp(self.X[r] @ b)
                h += len(e) / g.sum()
                q += len(e) / g.sum() ** 2
                a += len(e) * (g @ self.X[r]) / g.sum() ** 2
        return h, q, a

    def hazard(self, b):
        return np.array([self.parts(b, t)[0] for t in self.t[::-1]])

    def survival(self, b, t, x):
        h, q, a = self.parts(b, t)
        S = np.exp(-h * np.exp(x @ b))
        v = a[None] - h * x
        return S, np.exp(x @ b) * S * np.sqrt(q + np.einsum("ij,jk,ik->i", v, self.V, v))

    def martingale(self, b):
        return np.array([self.rec["event"][i] - self.parts(b, self.rec["time"][i])[0]
                         * np.exp(self.X[i] @ b) for i in range(self.n)])

    def deviance(self, b):
        out = []
        for i, m in enumerate(self.martingale(b)):
            d = self.rec["event"][i]
            lam = self.parts(b, self.rec["time"][i])[0] * np.exp(self.X[i] @ b)
            inner = m + (d * np.log(max(lam, np.finfo(float).eps)) if d else 0)
            out.append(np.sign(m) * np.sqrt(max(-2 * inner, 0)))
        return np.array(out)


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def setup(rec, rng, scale=3):
    """Real family for a follow-up: rows in any order, integer times with gaps."""
    from mssm.src.python.exp_fam import PropHaz

    n = len(rec["time"])
    time = np.array(rec["time"])
    perm = np.argsort(-time, kind="stable") if rng.random() < 0.5 else rng.permutation(n)
    X = np.round(rng.normal(size=(n, P)), 3)
    u, inv = np.unique(time[perm] * scale, return_inverse=True)
    fam = PropHaz(np.flip(u), np.abs(inv - max(inv)))
    M = rng.normal(size=(P, P))
    return fam, X, perm, M @ M.T


def ask(fam, op, b, X, perm, V, event, O, scale, rng):
    """One query; message when the answer is not the specification's."""
    Xs = [scp.sparse.csc_array(X[perm])]
    delta = np.array(event, dtype=np.int64)[perm].reshape(-1, 1)
    keep = (delta.copy(), Xs[0].toarray(), b.copy())
    c = b.reshape(-1, 1)
    bad = None
    if op == "llk":
        r, w = fam.llk(c, [], [delta], Xs), O.llk(b)
        bad = None if close(float(r), w) else f"llk {r}, risk sets give {w}"
    elif op == "gradient":
        r, w = fam.gradient(c, [], [delta], Xs), O.gradient(b)
        bad = None if close(r.flatten(), w) else f"gradient {r.flatten()}, risk sets give {w}"
    elif op == "hessian":
        r, w = fam.hessian(c, [], [delta], Xs), O.hessian(b)
        bad = None if close(r.toarray(), w) else f"hessian {r.toarray()}, risk sets give {w}"
    elif op == "hazard":
        r, w = fam.get_baseline_hazard(c, delta, Xs), O.hazard(b)
        bad = None if close(r, w) else f"baseline hazard {r}, risk sets give {w}"
    elif op == "survival":
        x = X[:2]
        for t in range(0, (max(O.t) + 1) * scale + 1):
            S, se = fam.get_survival(c, Xs, delta, t, x if t % 2 else scp.sparse.csc_array(x),
                                     V if t % 3 else scp.sparse.csc_array(V))
            w, wse = O.survival(b, t / scale, x)
            if not (close(np.ravel(S), w) and close(np.ravel(se), wse, 1e-6)):
                bad = f"survival at {t}: {np.ravel(S)} ({np.ravel(se)}), risk sets give {w} ({wse})"
                break
            S2, none = fam.get_survival(c, Xs, delta, t, x, None, compute_var=False)
            if not close(np.ravel(S2), w) or none is not None:
                bad = f"survival at {t} without variance: {np.ravel(S2)}"
                break
    else:
        kind = op.capitalize()
        r = fam.get_resid(c, [], [delta], Xs, resid_type=kind)
        w = getattr(O, op)(b)
        tol = 1e-8
        if op == "deviance":
            # log of an almost vanishing cumulative hazard is ill-conditioned
            tol = 1e-5
            lam = np.array(O.rec["event"]) - O.martingale(b)
            tiny = (np.array(O.rec["event"]) == 1) & (lam < 1e-9)
            w = np.where(tiny[perm], r.flatten(), w[perm])[np.argsort(perm)]
        if not close(r.flatten(), w[perm], tol):
            bad = f"{op} residuals {r.flatten()}, risk sets give {w[perm]}"
        else:
            r = fam.get_resid(c, [], [delta], Xs, resid_type=kind, reorder=np.argsort(perm))
            if not close(r.flatten(), w, tol):
                bad = f"{op} residuals in original order {r.flatten()}, risk sets give {w}"
    if bad is None and not (np.array_equal(delta, keep[0]) and np.array_equal(b, keep[2])
                            and np.array_equal(Xs[0].toarray(), keep[1])):
        bad = f"{op} changed its arguments"
    return bad


def replay(rec, seed, full):
    rng = np.random.default_rng(seed)
    scale = int(rng.integers(1, 4))
    try:
        fam, X, perm, V = setup(rec, rng, scale)
        coefs = {k: rng.normal(size=P) * s for k, s in (("b1", 0.7), ("b2", 2), ("zero", 0))}
        if full:
            script = [(o, c) for c in coefs for o in OPS]
        else:
            script = rec["calls"]
        for step, (op, c) in enumerate(script):
            ev = rec["event"]
            r2 = rec
            X2 = X
            if op.endswith("'"):  # same times, everybody else's outcome and covariates
                op = op[:-1]
                ev = [1 - e for e in ev]
                byt = {}
                for i, t in enumerate(rec["time"]):
                    byt.setdefault(t, []).append(i + 1)
                r2 = dict(rec, event=ev, log=[dict(e, ev=[i for i in byt[e["t"]] if ev[i - 1]])
                                              for e in rec["log"]])
                X2 = X[::-1] + 1
            O = Oracle(r2, X2, V)
            bad = ask(fam, op, coefs[c], X2, perm, V, ev, O, scale, rng)
            if bad:
                return (op, f"call {step} of {script[:step + 1]}: {bad}")
    except Exception as e:  # noqa: BLE001
        import traceback

        return ("raises", f"{type(e).__name__}: {e} {traceback.format_exc()[-700:]}")
    return None


def through_model(rec, seed):
    """The same through a GSMM built from a data frame with missing rows."""
    import pandas as pd
    from mssm.models import GSMM, Formula, l, lhs
    from mssm.src.python.exp_fam import PropHaz
    from mssm.src.python.formula import build_model_matrix, build_penalties

    rng = np.random.default_rng(seed)
    n = len(rec["time"])
    X = np.round(rng.normal(size=(n, P)), 3)
    d = pd.DataFrame(X, columns=list("abc"))
    d["time"], d["delta"] = rec["time"], np.array(rec["event"], dtype=np.int64)
    junk = d.iloc[:2].copy()
    junk["b"] = np.nan
    order = rng.permutation(n + 2)
    full = pd.concat([d, junk]).iloc[order].reset_index(drop=True)
    kept = full[~full["b"].isna()]
    idx = order[order < n]
    u, inv = np.unique(kept["time"].to_numpy(), return_inverse=True)
    try:
        fam = PropHaz(np.flip(u), np.abs(inv - max(inv)))
        m = GSMM([Formula(lhs("delta"), [l(["a"]), l(["b"]), l(["c"])], full, print_warn=False)],
                 fam)
        b = rng.normal(size=P)
        c = b.reshape(-1, 1)
        O = Oracle(rec, X, np.eye(P))
        build_penalties(m.formulas[0])
        ys, Xs = m.get_ys(), [build_model_matrix(m.formulas[0])]
        r = fam.llk(c, [], ys, Xs)
        if not close(float(r), O.llk(b)):
            return ("model", f"llk {r} of the model, risk sets give {O.llk(b)}")
        if not close(fam.gradient(c, [], ys, Xs).flatten(), O.gradient(b)):
            return ("model", "gradient of the model")
        if not close(fam.get_resid(c, [], ys, Xs).flatten(), O.martingale(b)[idx]):
            return ("model", "residuals of the model")
    except Exception as e:  # noqa: BLE001
        import traceback

        return ("raises", f"{type(e).__name__}: {e} {traceback.format_exc()[-700:]}")
    return None


def run(chk):
    import mssm.models  # noqa: F401

    inv = ["RiskSets", "Shrinking", "EventsOnce", "Everybody"]
    sizes = [(1, 1), (2, 2), (3, 3), (4, 3)] if chk.quick else [(1, 1), (2, 2), (3, 3), (4, 4),
                                                               (5, 4)]
    jobs = []
    for n, T in sizes:
        r = chk.tlc("Cox", defs={"Cohorts": "{}", "Ops": "{}", "Coefs": "{}"},
                    consts={"N": str(n), "T": str(T), "MaxCalls": "0"}, spec="Spec",
                    invariants=inv, properties=["Inert"])
        jobs += [(rec, True) for rec in r.records]
        chk.count(f"cohorts_{n}x{T}", len(r.records))
    # histories of calls on one object
    some = [
        dict(time=[3, 1, 3, 2, 5], event=[1, 1, 1, 0, 0]),
        dict(time=[2, 2, 2, 4, 1], event=[1, 0, 1, 1, 1]),
    ]
    if not chk.quick:
        some += [dict(time=[5, 4, 3, 2, 1], event=[1, 1, 1, 1, 1]),
                 dict(time=[1, 1, 1, 1, 1], event=[1, 0, 0, 1, 1])]
    ops = OPS[3:6] + ["hazard'", "martingale'", "llk", "survival'"]
    r = chk.tlc("Cox", defs={"Cohorts": "{" + ", ".join(tla(c) for c in some) + "}",
                             "Ops": tla(set(ops)), "Coefs": '{"b1", "b2"}'},
                consts={"N": "5", "T": "5", "MaxCalls": "3"},
                spec="Spec", invariants=inv, properties=["Inert"])
    jobs += [(rec, False) for rec in r.records]
    chk.count("call_histories", len(r.records))
    # larger cohorts: random walks of the specification
    for n, T in ([(14, 6), (25, 40)] if chk.quick else [(14, 6), (40, 20), (60, 100)]):
        rng = np.random.default_rng(chk.seed + n)
        cs = [dict(time=[int(v) for v in rng.integers(1, T + 1, n)],
                   event=[int(v) for v in rng.integers(0, 2, n)])
              for _ in range(40 if chk.quick else 200)]
        r = chk.tlc("Cox", defs={"Cohorts": "{" + ", ".join(tla(c) for c in cs) + "}",
                                 "Ops": "{}", "Coefs": "{}"},
                    consts={"N": str(n), "T": str(T), "MaxCalls": "0"}, spec="Spec",
                    invariants=inv)
        jobs += [(rec, True) for rec in r.records]
        chk.count(f"cohorts_{n}x{T}", len(r.records))

    def work(w):
        out = []
        for j in range(w, len(jobs), 8):
            rec, full = jobs[j]
            bad = replay(rec, chk.seed * 7919 + j, full)
            if bad is None and full and len(rec["time"]) > 2 and j % 3 == 0:
                bad = through_model(rec, chk.seed * 31 + j)
            if bad:
                out.append((j, bad))
        return out

    for part in pmap(work, 8):
        for j, (clause, msg) in part:
            chk.violation(clause, msg, replay=dict(jobs[j][0], seed=chk.seed * 7919 + j))
    chk.ok(len(jobs))
    for j in (0, len(jobs) // 2, -1):
        rec = jobs[j][0]
        chk.sample({"time": rec["time"], "event": rec["event"], "calls": rec["calls"]})
    chk.assumptions += ["times are integers, rows in any order", "covariates are random, 3 columns"]
