"""C16: models in use (histories of spec/Lifecycle.tla replayed on fitted models)."""

import contextlib
import copy
import io
import pickle
import time
import warnings

import numpy as np
import scipy as scp

from . import zoo
from .c08_data import Bad, need
from .c13_fit import kind, methods
from .common import deadline, pmap, tla

INV = ["Whole", "Answers", "Untouched"]


def fits(name):
    """Ways to fit a model: name -> options."""
    k = kind(name)
    pen = not name.endswith("lin")
    if k == "gamm":
        out = {"usual": {}, "offset": {"offset": 0.7}, "chol": {"method": "Chol"}}
        if "lost" in name:
            del out["chol"]
        if name.startswith("gammaid"):
            del out["offset"]
        if name.startswith("gauss"):
            out["ar"] = {"rho": 0.4}
        if pen:
            if not name.startswith("scaledt"):
                out["few"] = {"max_outer": 2}
            out["one"] = {"max_inner": 1}
        return out
    if methods(name)[0] == "qEFS":
        out = {"usual": {"max_inner": 500}, "few": {"max_inner": 500, "max_outer": 2}}
        if pen:
            out["start"] = {"init_lambda": [50.0] * 20, "max_inner": 500}
        return out
    out = {"usual": {}, "chol": {"method": "Chol"}, "few": {"max_outer": 2}}
    if "lost" in name:
        del out["chol"]
    if pen:
        out["start"] = {"init_lambda": [50.0] * 20}
        out["coords"] = {"repara": False}
    if k == "gsmm":
        out["quasi"] = {"method": "qEFS", "max_inner": 500}
    return out


def failing(name, k):
    """Options of a fit that cannot work."""
    if kind(name) == "gamm":
        return [{"offset": np.zeros((7, 1)), "max_outer": 1}, {"method": "Chol", "restart": "no", "rho": "high"}][k % 2]
    return [{"init_lambda": [], "max_outer": 1}, {"method": "none", "extend_lambda": True, "max_inner": "many"}][k % 2]


def arr(v):
    if v is None:
        return np.zeros(0)
    if scp.sparse.issparse(v):
        return v.toarray()
    return np.array(v, float)


def quiet(f, *a, **k):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        f(*a, **k)
    return o.getvalue()


class Object:
    def __init__(self, entry, model=None):
        self.e, self.m = entry, entry.model if model is None else model
        self.name = None

    def fit(self, kw):
        kw = {"progress_bar": False, "n_cores": 1, **self.e.kw, **copy.deepcopy(kw)}
        keep = pickle.dumps(kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.m.fit(**kw)
        need(pickle.dumps(kw) == keep, f"options of the user were changed to {kw}")


def pars(o):
    from mssm.models import GAMM

    return [None] if isinstance(o.m, GAMM) else list(range(len(o.m.formulas)))


def at(o, p):
    return {} if p is None else {"par": p}


def frame(o):
    d = o.e.d.iloc[[3, 40, 77, 12, 55]].copy()
    return d


def answers(name):
    """Questions: name -> function of an object that returns arrays (or text)."""
    from mssm.models import GAMM
    from mssm.src.python import utils as U

    lss = kind(name) != "gamm"

    def predict(o):
        return [arr(x) for p in pars(o) for x in o.m.predict(None, frame(o), ci=True, **at(o, p))]

    def whole(o):
        return [arr(x) for p in pars(o)
                for x in o.m.predict(None, frame(o), ci=True, whole_interval=True, n_ps=300, seed=3, **at(o, p))]

    def diff(o):
        d = frame(o)
        return [arr(x) for p in pars(o) for x in o.m.predict_diff(d, d.iloc[::-1].copy(), None, **at(o, p))]

    def sample(o):
        return [arr(o.m.sample_post(5, seed=4, **at(o, p))) for p in pars(o)]

    def llk(o):
        return [arr(o.m.get_llk(False)), arr(o.m.get_llk(True))]

    def reml(o):
        return [arr(o.m.get_reml())] if len(o.m.overall_penalties) else []

    def resid(o):
        if kind(name) == "gsmm":
            return []
        return [arr(o.m.get_resid())]

    def parts(o):
        return [arr(np.concatenate([np.ravel(arr(x)) for x in o.m.get_pars()]))]

    def design(o):
        X = o.m.get_mmat()
        y = o.m.get_ys()
        return [arr(x) for x in (X if isinstance(X, list) else [X])] + [
            arr(x) for x in (y if isinstance(y, list) else [y])]

    def summary(o):
        return [quiet(o.m.print_parametric_terms), quiet(o.m.print_smooth_terms)]

    def pvalues(o):
        if not any(f.get_smooth_term_idx() for f in o.m.formulas):
            return []
        out = []
        for p in range(len(o.m.formulas)):
            if o.m.formulas[p].get_smooth_term_idx():
                out += [arr(x) for x in U.approx_smooth_p_values(o.m, par=p, n_sel=2000)]
        return out

    def correct(o):
        if not len(o.m.overall_penalties) or methods(name)[0] == "qEFS" \
                or getattr(o.m, "rho", None) is not None:
            return []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = U.correct_VB(o.m, nR=6, grid_type="JJJ3", n_c=1, seed=5, recompute_H=True,
                             method="QR" if kind(name) == "gamm" and "lost" in name else "Chol")
        return [arr(x) for x in r if x is not None]

    def compare(o):
        from mssm.src.python.compare import compare_CDL

        if not len(o.m.overall_penalties) or methods(name)[0] == "qEFS":
            return []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = compare_CDL(o.m, o.m, correct_V=getattr(o.m, "rho", None) is None and "lost" not in name, grid="JJJ1",
                            n_c=1, seed=2)
        return [arr(r[k]) for k in sorted(r) if isinstance(r[k], (int, float, np.number))]

    out = {"compare": compare, "predict": predict, "whole": whole, "diff": diff, "sample": sample, "llk": llk, "reml": reml,
           "resid": resid, "pars": parts, "design": design, "summary": summary, "pvalues": pvalues,
           "correct": correct}
    return out


def state(o):
    m = o.m
    d = {"coef": m.coef, "scale": m.scale, "edf": m.edf, "term_edf": m.term_edf, "penalty": m.penalty,
         "lvi": m.lvi, "hessian": m.hessian, "res": getattr(m, "res", None), "code": m.info.code,
         "lam": [p.lam for p in m.overall_penalties], "dropped": m.info.dropped,
         "pen": [p.S_J_emb.toarray() for p in m.overall_penalties] if False else None}
    for a in ("rho", "res_ar", "hessian_obs", "offset", "edf1", "term_edf1"):
        if a in ("edf1", "term_edf1"):
            continue
        d[a] = getattr(m, a, None)
    for k, p in enumerate(m.preds):
        d[f"pred{k}"] = p
    for k, p in enumerate(m.mus):
        d[f"mu{k}"] = p
    if getattr(m.family, "theta", None) is not None:
        d["theta"] = m.family.theta
    return {k: ([arr(x) for x in v] if isinstance(v, list) and k == "res" else arr(v)) for k, v in d.items()}


def same(a, b, tol, what):
    if isinstance(a, str) or isinstance(b, str):
        need(tol > 1e-6 or a == b, f"{what}: text differs: {a[:300]!r}, expected {b[:300]!r}")
        return
    if isinstance(a, list) or isinstance(b, list):
        need(isinstance(a, list) and isinstance(b, list) and len(a) == len(b), f"{what}: other number of results")
        for x, y in zip(a, b):
            same(x, y, tol, what)
        return
    need(a.shape == b.shape, f"{what}: shape {a.shape}, expected {b.shape}")
    if a.size == 0:
        return
    need(bool(np.array_equal(np.isnan(a), np.isnan(b))), f"{what}: other entries are missing")
    with np.errstate(invalid="ignore"):
        d = np.max(np.nan_to_num(np.abs(np.where((a == b) | (np.isnan(a) & np.isnan(b)), 0, a - b)),
                                 nan=np.inf, posinf=np.inf))
    need(d <= tol * (1 + np.max(np.abs(b[np.isfinite(b)]), initial=0)),
         f"{what} differs by {d:.2e} ({np.ravel(a)[:3]}, expected {np.ravel(b)[:3]})")


def tolerance(name):
    # shape parameters are estimated from where they are
    return 2e-2 if name.startswith("scaledt") else 1e-8


def pair(name, seed, share):
    """Two models that share what they are made of."""
    e = zoo.ALL[name](seed)
    one = Object(e)
    if share == "nothing":
        return [one]
    fam = e.model.family if share == "both" else copy.deepcopy(e.model.family)
    F = e.model.formulas
    cls = type(e.model)
    from mssm.models import GAMM

    other = GAMM(F[0], fam) if issubclass(cls, GAMM) else cls(list(F), fam)
    return [one, Object(e, other)]


class Reference:
    """Answers of fresh models."""

    def __init__(self, name, seed):
        self.name, self.seed, self.obj, self.ans, self.st = name, seed, {}, {}, {}

    def of(self, f):
        if f not in self.obj:
            o = Object(zoo.ALL[self.name](self.seed))
            o.fit(fits(self.name)[f])
            self.obj[f] = o
            self.st[f] = state(o)
        return self.obj[f]

    def state(self, f):
        self.of(f)
        return self.st[f]

    def ask(self, f, q):
        if (f, q) not in self.ans:
            # a copy is asked, so that answers do not depend on questions asked earlier
            o = self.of(f)
            keep = pickle.dumps(o.m) if q in ("correct", "pvalues", "compare") else None
            self.ans[f, q] = answers(self.name)[q](o)
            if keep is not None:
                o.m = pickle.loads(keep)
        return self.ans[f, q]


def replay(ref, rec, share):
    name = ref.name
    tol = tolerance(name)
    objs = pair(name, ref.seed, share)
    table = fits(name)
    ask = answers(name)
    frame0 = pickle.dumps(objs[0].e.d)
    for k, r in enumerate(rec["log"]):
        o = objs[r["obj"] - 1]
        if r["op"] == "fit":
            o.fit(table[r["what"]])
        elif r["op"] == "fail":
            try:
                o.fit(failing(name, k))
            except Bad:
                raise
            except Exception:  # noqa: BLE001
                pass
        else:
            was = state(o)
            got = ask[r["what"]](o)
            same(got, ref.ask(r["of"], r["what"]), tol, f"step {k + 1}: {r['what']}")
            now = state(o)
            for p in was:
                same(now[p], was[p], 0.0, f"step {k + 1}: {r['what']} changes {p}, which")
    last = rec["last"]
    for j, o in enumerate(objs):
        f = last[j]
        if f == "none":
            continue
        want, got = ref.state(f), state(o)
        for p in want:
            if p in got and not (p == "lam" and tol > 1e-6):
                same(got[p], want[p], tol, f"at the end: {p} of model {j + 1}")
        for q in ("predict", "llk", "reml", "sample", "summary"):
            same(ask[q](o), ref.ask(f, q), tol, f"at the end: {q} of model {j + 1}")
    need(pickle.dumps(objs[0].e.d) == frame0, "the data frame of the user was changed")


def run(chk):
    warnings.simplefilter("ignore")
    q = chk.quick
    rng = np.random.default_rng(chk.seed)
    names = list(zoo.ALL)
    jobs = []
    cache = {}

    def histories(nf, na, objects, depth, share):
        key = nf, na, objects, depth
        if key not in cache:
            cache[key] = chk.tlc("Lifecycle", defs={
                "Objects": "1 .. %d" % objects, "Fits": tla({f"f{k}" for k in range(nf)}),
                "Asks": tla({f"a{k}" for k in range(na)}), "Share": tla(share), "Fails": "TRUE"},
                consts={"Depth": str(depth)}, spec="Spec", invariants=INV, properties=["Inert"],
                workers=1).records
        return cache[key]

    def named(rec, F, A):
        t = {**{f"f{k}": f for k, f in enumerate(F)}, **{f"a{k}": a for k, a in enumerate(A)}, "none": "none", "": ""}
        return {"log": [{**r, "what": t[r["what"]], "of": t[r["of"]]} for r in rec["log"]],
                "last": [t[x] for x in rec["last"]]}

    for j, name in enumerate(names):
        F, A = sorted(fits(name)), sorted(answers(name))
        for share, objects, depth in (("nothing", 1, 3), ("formula", 2, 4), ("both", 2, 4)):
            if share == "both" and (name.startswith("scaledt") or name.startswith("prophaz")):
                continue  # parameters of the distribution are kept with it
            recs = histories(len(F) if objects == 1 else 2, len(A) if objects == 1 else 3, objects, depth, share)
            slow = methods(name)[0] == "qEFS" or name.startswith(("gaumlss_", "gammals"))
            k = ((3 if slow and share == "nothing" else 1 if slow else 7 if share == "nothing" else 2) if q else ((12 if slow else 30) if share == "nothing" else 3 if slow else 6))
            use = []
            for i in sorted(rng.choice(len(recs), min(k, len(recs)), replace=False)):
                use.append(named(recs[i], rng.permutation(F), rng.permutation(A)) if objects > 1
                           else named(recs[i], F, A))
            jobs.append((name, chk.seed + j, share, use))

    def work(i):
        name, seed, share, recs = jobs[i]
        out, n, t0 = [], 0, time.time()
        ref = Reference(name, seed)
        for rec in recs:
            n += 1
            try:
                with deadline(300):
                    replay(ref, rec, share)
            except Bad as ex:
                out.append((rec, "answer", str(ex)))
            except Exception as ex:  # noqa: BLE001
                import traceback

                out.append((rec, "raises", f"{type(ex).__name__}: {ex} {traceback.format_exc()[-500:]}"))
        return out, n, time.time() - t0

    took = {}
    for (name, seed, share, recs), (out, n, t) in zip(jobs, pmap(work, len(jobs))):
        chk.ok(n)
        took[name] = took.get(name, 0) + t
        chk.count("histories", n)
        for rec, clause, msg in out:
            h = [f"{r['op']} {r['what']} ({r['obj']})" for r in rec["log"] if r["op"] != "end"]
            chk.violation(clause, f"{name} sharing {share}: {msg}; history {h}",
                          replay={"model": name, "seed": seed, "share": share, "history": rec})
    chk.log("slowest:", sorted(((round(t), n) for n, t in took.items()), reverse=True)[:8])
    chk.count("models", len(names))
    for j in jobs[:2]:
        chk.sample({"model": j[0], "share": j[2], "history": j[3][0]})
    chk.assumptions += ["families that store estimated parameters (scaled T) or the design (Cox) are not shared "
                        "by models in use", "fits use one worker process"]
