"""C04: the HSMM/HMP gradient is the derivative of the sum over histories."""

import warnings

import numpy as np

from .common import pmap
from .hsmm_inst import Instance, dp, histories
from .hsmm_specs import all_specs, big_spec, configs_for

warnings.simplefilter("ignore")


def same(g, og):
    scale = max(1.0, float(np.max(np.abs(og))) if len(og) else 1.0)
    return g.shape == og.shape and bool(np.all(np.isfinite(g))) and np.allclose(
        g, og, rtol=2e-4, atol=2e-5 * scale
    )


def report(chk, I, g, og, kog, clause, rep):
    if not np.all(np.isfinite(og)):
        return
    if same(g, og):
        chk.ok()
        return
    if kog is not None and same(g, kog):
        chk.violation(clause, "known", rep, finding="hmp-shared-signals")
        chk.ok()
        return
    if g.shape != og.shape:
        d = f"gradient has {g.shape[0]} entries for {og.shape[0]} coefficients"
    else:
        bounds = np.concatenate([[0], I.split, [len(og)]])
        names = [f"{f[0]}{f[1]}" for f in I.forms] + ["theta"]
        i = int(np.argmax(np.abs(g - og)))
        b = int(np.searchsorted(bounds, i, side="right") - 1)
        d = (
            f"coefficient {i} (model {names[min(b, len(names) - 1)]}): code {g[i]:.8g}, "
            f"derivative {og[i]:.8g}"
        )
    chk.violation(clause, d, rep)


def both(I, oracle):
    """Oracle value and, where it applies, the value under the recorded HMP signal finding."""
    v = oracle()
    k = None
    if I.hits_known_signals():
        I.use_known_signals = True
        k = oracle()
        I.use_known_signals = False
    return v, k


def fd(I):
    def L(c):
        return sum(dp(I.cfg(si), f, "sum") for si, f in enumerate(I.factors(c)))

    h = 1e-5
    out = np.zeros(len(I.coef))
    for i in range(len(out)):
        c = I.coef.copy()
        v = []
        for m in (-1, 1):
            c[i] = I.coef[i] + m * h
            v.append(L(c))
        out[i] = (v[1] - v[0]) / (2 * h)
    return out


def run(chk):
    specs = all_specs(chk, 60, 500)
    hist = histories(chk, configs_for(specs))
    todo = []
    for k, s in enumerate(specs):
        I = Instance(s, np.random.default_rng([chk.seed, k, 4]))
        rep = dict(spec=s, k=k)
        if not np.isfinite(I.llk(hist)):
            chk.count("skipped_zero_likelihood")
            continue
        with chk.guard("gradient", rep) as g:
            F, a = I.real()
            gr = np.asarray(F.gradient(*a))
            shp = gr.shape
            gr = gr.flatten()
        if g.failed:
            continue
        if shp != (len(I.coef), 1):
            chk.violation("shape", f"gradient shape {shp} for {len(I.coef)} coefficients", rep)
            continue
        todo.append((I, gr, "gradient=derivative", rep, lambda I=I: I.grad(hist)))
        if k % 19 == 4 and len(s["nts"]) > 1:
            with chk.guard("gradient-parallel", rep) as g:
                F2, a2 = I.real(n_cores=2)
                g2 = np.asarray(F2.gradient(*a2)).flatten()
            if not g.failed and not np.allclose(g2, gr, rtol=1e-9, atol=1e-10):
                chk.violation("worker-count-immaterial", f"{gr} vs {g2}", rep)
        if k < 2:
            chk.sample(dict(spec=s, gradient=gr))
    rng = np.random.default_rng(7300 + chk.seed)
    for k in range(8 if chk.quick else 60):
        s = big_spec(rng, hmp=k % 3 == 2)
        s["nts"] = [min(x, 25) for x in s["nts"]][:1]
        s["D"] = min(s["D"], 8)
        s["ns"] = min(s["ns"], 3)
        I = Instance(s, np.random.default_rng([chk.seed, 54, k]))
        if not np.isfinite(sum(dp(I.cfg(si), f, "sum") for si, f in enumerate(I.factors()))):
            continue
        rep = dict(spec=s)
        with chk.guard("gradient-large", rep) as g:
            F, a = I.real()
            gr = np.asarray(F.gradient(*a)).flatten()
        if not g.failed:
            todo.append((I, gr, "gradient=derivative(large)", rep, lambda I=I: fd(I)))
    res = pmap(lambda i: both(todo[i][0], todo[i][4]), len(todo))
    for (I, gr, clause, rep, _), (og, kog) in zip(todo, res):
        report(chk, I, gr, og, kog, clause, rep)
