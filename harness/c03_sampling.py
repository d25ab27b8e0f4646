"""C03: sampled histories are admissible behaviours of HSMM.tla, drawn from their exact posterior."""

import warnings

import numpy as np
import scipy as scp
from scipy.special import logsumexp

from .c02_viterbi import validate_traces
from .hsmm_inst import Instance, dp, histories, history_logw
from .hsmm_specs import all_specs, big_spec, configs_for

warnings.simplefilter("ignore")
P_MIN = 1e-11  # a correct sampler fails one goodness-of-fit test with this probability


def gof(counts, probs, n):
    """Chi-square p value with small expectations pooled; also a support violation flag."""
    exp = probs * n
    order = np.argsort(exp)
    e, o, acc_e, acc_o = [], [], 0.0, 0.0
    for i in order:
        acc_e += exp[i]
        acc_o += counts[i]
        if acc_e >= 8:
            e.append(acc_e)
            o.append(acc_o)
            acc_e = acc_o = 0.0
    if acc_e > 0 or acc_o > 0:
        if e:
            e[-1] += acc_e
            o[-1] += acc_o
        else:
            e, o = [acc_e], [acc_o]
    if len(e) < 2:
        return 1.0
    e, o = np.array(e), np.array(o)
    return float(scp.stats.chi2.sf(((o - e) ** 2 / e).sum(), len(e) - 1))


def judge(I, hist, res, n):
    """None or a description of the first deviation."""
    for si, fac in enumerate(I.factors()):
        ps = I.paths(hist, si)
        lw = ps.logw(*fac)
        if not len(lw) or np.isneginf(lw.max()):
            continue
        pr = np.exp(lw - logsumexp(lw))
        ix = {(st, r): i for i, (st, r) in enumerate(zip(ps.states, ps.rems))}
        eds = np.asarray(res[si][0]).astype(int)
        st = np.asarray(res[si][1]).astype(int)
        if st.shape != (I.nts[si], n) or eds.shape != (n,):
            return f"series {si}: shapes {st.shape} {eds.shape}"
        cnt = np.zeros(len(pr))
        for c in range(n):
            k = (tuple(int(x) for x in st[:, c]), int(eds[c]))
            i = ix.get(k)
            if i is None:
                return f"series {si}: sampled {k} is not an admissible history"
            if pr[i] <= 0:
                return f"series {si}: sampled {k} has probability zero"
            cnt[i] += 1
        p = gof(cnt, pr, n)
        if p < P_MIN:
            worst = int(np.argmax(np.abs(cnt - n * pr) / np.sqrt(n * pr + 1e-9)))
            return (
                f"series {si}: goodness of fit p={p:.2e}; history {ps.states[worst]} "
                f"(remaining {ps.rems[worst]}) sampled {cnt[worst]:.0f} of {n}, posterior {pr[worst]:.4f}"
            )
    return None


def run(chk):
    specs = all_specs(chk, 60, 500)
    hist = histories(chk, configs_for(specs))
    traces = []
    n = 3000 if chk.quick else 20000
    for k, s in enumerate(specs):
        I = Instance(s, np.random.default_rng([chk.seed, k, 3]))
        rep = dict(spec=s, k=k, n=n)
        with chk.guard("sample", rep) as g:
            F, a = I.real(n_cores=2 if k % 23 == 5 else 1)
            res = F.sample_posterior_states(*a, n, 100 + k)
        if g.failed:
            continue
        if len(res) != I.nser:
            chk.violation("one-result-per-series", f"{len(res)} for {I.nser} series", rep)
            continue
        bad = judge(I, hist, res, n)
        if bad is not None and I.hits_known_signals():
            I.use_known_signals = True
            b2 = judge(I, hist, res, n)
            I.use_known_signals = False
            if b2 is None:
                chk.violation("exact-posterior", bad, rep, finding="hmp-shared-signals")
                bad = None
        if bad is not None:
            chk.violation("exact-posterior", bad, rep)
            continue
        chk.ok()
        chk.count("samples_checked", n * I.nser)
        for si, fac in enumerate(I.factors()):
            if np.isfinite(I.paths(hist, si).logw(*fac)).any() and not I.hits_known_signals():
                for c in range(2):
                    traces.append(
                        (I.cfg(si), np.asarray(res[si][1])[:, c].tolist(), int(np.asarray(res[si][0])[c]))
                    )
        if k % 4 == 0:
            with chk.guard("reproducible", rep) as g:
                res2 = F.sample_posterior_states(*a, n, 100 + k)
                same = all(
                    np.array_equal(x[0], y[0]) and np.array_equal(x[1], y[1])
                    for x, y in zip(res, res2)
                )
            if not g.failed and not same:
                chk.violation("same-seed-same-samples", "second call differs", rep)
        if k < 2:
            chk.sample(dict(spec=s, first=[np.asarray(r[1])[:, 0] for r in res]))
    # marginal occupancy on sizes beyond enumeration: exact smoothing marginals from the recursion,
    # by conditioning (weight of all histories that are in state j at sample t)
    rng = np.random.default_rng(7200 + chk.seed)
    nb = 4000 if chk.quick else 20000
    for k in range(8 if chk.quick else 60):
        s = big_spec(rng, hmp=k % 3 == 2)
        s["nts"] = [min(x, 24) for x in s["nts"]][:1]
        s["D"] = min(s["D"], 9)
        I = Instance(s, np.random.default_rng([chk.seed, 53, k]))
        rep = dict(spec=s, k=k)
        with chk.guard("sample-large", rep) as g:
            F, a = I.real()
            res = F.sample_posterior_states(*a, nb, 5 + k)
        if g.failed:
            continue
        fac = I.factors()[0]
        Z = dp(I.cfg(0), fac, "sum")
        if not np.isfinite(Z):
            continue
        st = np.asarray(res[0][1]).astype(int)
        for t in (0, I.nts[0] // 3, I.nts[0] // 2, I.nts[0] - 1):
            pr = np.zeros(I.ns)
            for j in range(I.ns):
                lb = fac[3].copy()
                lb[t, :, [i for i in range(I.ns) if i != j]] = -np.inf
                pr[j] = np.exp(dp(I.cfg(0), (fac[0], fac[1], fac[2], lb), "sum") - Z)
            cnt = np.array([(st[t] == j).sum() for j in range(I.ns)])
            p = gof(cnt, pr, nb)
            if p < P_MIN or (cnt[pr <= 0] > 0).any():
                chk.violation("marginal-occupancy(large)", f"sample {t}: {cnt / nb} vs {pr} p={p:.1e}", rep)
            else:
                chk.ok()
        for c in range(3):
            h = st[:, c].tolist()
            if np.isneginf(history_logw(I.cfg(0), fac, h, int(np.asarray(res[0][0])[c]))):
                chk.violation("admissible(large)", f"{h}", rep)
            traces.append((I.cfg(0), h, int(np.asarray(res[0][0])[c])))
    validate_traces(chk, traces, "trace-is-behaviour")
