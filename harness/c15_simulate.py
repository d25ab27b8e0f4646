"""C15: reported probabilities are the model's, and simulated sequences are behaviours of HSMMSim.tla
drawn with the probability of their factors."""

import warnings

import numpy as np
import scipy as scp

from .c03_sampling import P_MIN, gof
from .common import tla_set
from .hsmm_inst import Instance
from .hsmm_specs import all_specs, big_spec

warnings.simplefilter("ignore")


def sim_key(s, nt, ext):
    return (s["ns"], nt, s["D"], s["swf"], s["hmp"], s["w"], ext)


def sequences(chk, specs):
    """{sim_key: [(states, positions, factors)]} from TLC."""
    keys = sorted(
        {sim_key(s, nt, e) for s in specs for nt in s["nts"] for e in (0, 1)}
    )
    cfgs = [
        dict(id=i, ns=k[0], nt=k[1], D=k[2], swf=k[3], hmp=k[4], w=k[5], ext=k[6])
        for i, k in enumerate(keys)
    ]
    r = chk.tlc(
        "HSMMSim",
        defs={"SimConfigs": tla_set(cfgs)},
        invariants=["SimTypeOK", "PosResets", "BumpLen", "EmitSim"],
    )
    out = {k: [] for k in keys}
    for rec in r.records:
        out[keys[rec["id"]]].append((tuple(rec["seq"]), tuple(rec["pos"]), rec["prob"]))
    return out


def prior(fac, seqs):
    """{state sequence: probability} of one series."""
    lpi, lT, ld, _ = fac[:4]
    out = {}
    for st, _, fs in seqs:
        lp = 0.0
        for f in fs:
            if f["k"] == "pi":
                lp += lpi[f["j"]]
            elif f["k"] == "T":
                lp += lT[f["i"], f["j"], f["t"]]
            else:
                lp += ld[f["j"], f["d"] - 1, f["t"]]
        out[st] = out.get(st, 0.0) + float(np.exp(lp))
    return out


def positions(seq):
    pos = [0]
    for a, b in zip(seq, seq[1:]):
        pos.append(0 if a != b else pos[-1] + 1)
    return pos


def ks_p(u):
    return float(scp.stats.kstest(u, "uniform").pvalue) if len(u) >= 20 else 1.0


def state_fit(I, res, seqs, ext, n):
    """None if the simulated state sequences follow the prior with ``ext`` extra samples."""
    for si, fac in enumerate(I.factors()):
        pr = prior(fac, seqs[sim_key(I.s, I.nts[si], ext)])
        tot = sum(pr.values())
        if abs(tot - 1) > 1e-6:
            from .common import MachineryError

            raise MachineryError(f"prior sums to {tot} for {I.s}")
        st = np.asarray(res[si][1])
        keys = list(pr)
        ix = {k: i for i, k in enumerate(keys)}
        cnt = np.zeros(len(keys))
        for c in range(n):
            k = tuple(int(x) for x in st[:, c])
            if k not in ix or pr[k] <= 0:
                return f"series {si}: simulated {k} has probability zero"
            cnt[ix[k]] += 1
        p = gof(cnt, np.array([pr[k] for k in keys]), n)
        if p < P_MIN:
            return f"series {si}: simulated state sequences do not follow the chain (p={p:.1e})"
    return None


def pits(I, res, ext):
    """Probability integral transforms of simulated emissions given the simulated states:
    list of (label, values)."""
    out = []
    Y0 = I.Y
    s = I.s
    try:
        if I.hmp:
            for si in range(I.nser):
                em, st = np.asarray(res[si][0]), np.asarray(res[si][1]).astype(int)
                nT, M, n = em.shape
                mean = I.factors(cdf=True)[si][4]
                d = {}
                for c in range(n):
                    po = positions(st[:, c])
                    for t in range(nT):
                        j = st[t, c]
                        for m in range(M):
                            mu = 0.0
                            if j % 2:
                                mu = mean[t, (po[t] - ext) % s["w"], j, m]
                            d.setdefault((m, j % 2, po[t] if j % 2 else 0), []).append(
                                em[t, m, c] - mu
                            )
                for k, v in d.items():
                    v = np.array(v)
                    if s["hmp_fam"] == "Gaussian":
                        u = scp.stats.norm.cdf(v, scale=np.sqrt(I.scale))
                    else:
                        e = scp.stats.expon.cdf(v**2, scale=I.scale)
                        u = 0.5 + 0.5 * np.sign(v) * e
                    out.append((f"series {si} signal {k[0]} state parity {k[1]} pos {k[2]}", u))
            return out
        n = res[0][0].shape[2]
        per = []
        for c in range(n):
            I.Y = np.concatenate([np.asarray(r[0])[:, :, c] for r in res], axis=0)
            per.append([f[5][:, 0] for f in I.factors(cdf=True)])
        for si in range(I.nser):
            st = np.asarray(res[si][1]).astype(int)
            L = np.exp(np.stack([p[si] for p in per]))  # n, nT, ns, M
            for t in range(st.shape[0]):
                for j in range(I.ns):
                    w = np.where(st[t] == j)[0]
                    for m in range(I.M):
                        if len(w) >= 20:
                            out.append((f"series {si} sample {t} state {j} signal {m}", L[w, t, j, m]))
                    if len(w) >= 60 and I.M > 1:
                        z = scp.stats.norm.ppf(np.clip(L[w, t, j, :2], 1e-12, 1 - 1e-12))
                        r = np.corrcoef(z.T)[0, 1]
                        zz = np.arctanh(np.clip(r, -0.999999, 0.999999)) * np.sqrt(len(w) - 3)
                        if abs(zz) > 7:
                            out.append((f"series {si} state {j}: signals correlated {r:.2f}", np.zeros(50)))
        return out
    finally:
        I.Y = Y0


def run(chk):
    specs = all_specs(chk, 60, 400)
    probs(chk, specs)
    small = [s for s in specs if sum(1 for _ in s["nts"]) and s["ns"] <= 4]
    seqs = sequences(chk, small)
    n = 1500 if chk.quick else 12000
    todo = []
    for k, s in enumerate(small):
        s = dict(s)
        I = Instance(s, np.random.default_rng([chk.seed, k, 15]))
        rep = dict(spec=s, k=k, n=n)
        with chk.guard("simulate", rep) as g:
            F, a = I.real()
            res = F.predict(*a, seed=11 + k, n_samples=n)
            r1 = F.predict(*a, seed=5, n_samples=4)
            r2 = F.predict(*a, seed=5, n_samples=4)
            r3 = F.predict(*a, seed=6, n_samples=4)
        if g.failed:
            continue
        for x, y in zip(r1, r2):
            if not all(np.array_equal(p, q) for p, q in zip(x, y)):
                chk.violation("seed-reproducible", "two runs with one seed differ", rep)
        if all(np.array_equal(x[0], y[0]) for x, y in zip(r1, r3)):
            chk.violation("seed-matters", "two seeds give the same emissions", rep)
        bad = [
            (np.shape(r[0]), np.shape(r[1]))
            for si, r in enumerate(res)
            if np.shape(r[0]) != (I.nts[si], I.M, n) or np.shape(r[1]) != (I.nts[si], n)
        ]
        if bad or len(res) != I.nser:
            chk.violation("shape", f"{bad}", rep)
            continue
        d0 = state_fit(I, res, seqs, 0, n)
        ext = 0
        if d0 is not None:
            d1 = state_fit(I, res, seqs, 1, n)
            ext = 1
            if d1 is not None:
                chk.violation("states-follow-chain", d1, rep)
                continue
            chk.violation("states-follow-chain", d0, rep, finding="simulated-durations")
        chk.ok()
        if not (I.hmp and I.rho is not None):
            todo.append((k, I, res, ext, rep))
        if k % 21 == 2 and I.nser > 1:
            with chk.guard("simulate-parallel", rep) as g:
                F2, a2 = I.real(n_cores=2)
                r4 = F2.predict(*a2, seed=5, n_samples=4)
            if not g.failed:
                for x, y in zip(r1, r4):
                    if not all(np.array_equal(p, q) for p, q in zip(x, y)):
                        chk.violation("worker-count-immaterial", "draws differ", rep)
    from .common import pmap

    def work(i):
        k, I, res, ext, rep = todo[i]
        m = 1500 if I.hmp else 400
        res = [(np.asarray(r[0])[:, :, :m], np.asarray(r[1])[:, :m]) for r in res]
        worst = None
        for lab, u in pits(I, res, ext):
            p = ks_p(u)
            if worst is None or p < worst[1]:
                worst = (lab, p)
        return worst

    for (k, I, res, ext, rep), w in zip(todo, pmap(work, len(todo))):
        if w is not None and w[1] < 1e-9:
            chk.violation("emissions-follow-state", f"{w[0]}: KS p={w[1]:.1e}", rep)
        else:
            chk.ok()
    chk.count("simulated_models", len(todo))


def cmp_probs(I, od, Tpi):
    """None or a description of the first probability that is not the model's."""
    for si, fac in enumerate(I.factors()):
        lpi, lT, ld, lb = fac
        nt = I.nts[si]
        bs, ds = (np.asarray(x) for x in od[si])
        if I.hmp:
            for j in range(I.ns):
                P = I.s["w"] if j % 2 else 2
                for p in range(min(P, bs.shape[1])):
                    if bs.shape != (nt, I.s["w"], I.ns) or not np.allclose(
                        bs[:, p, j], np.exp(lb[:, p, j]), rtol=1e-8, atol=1e-300
                    ):
                        return f"series {si}: emission probability of state {j} position {p}"
        elif bs.shape != (nt, I.ns) or not np.allclose(
            bs, np.exp(lb[:, 0, :]), rtol=1e-8, atol=1e-300
        ):
            return f"series {si}: emission probabilities"
        e = np.exp(ld).transpose(1, 0, 2)
        e = e if I.tv else e[:, :, 0]
        if ds.shape != e.shape or not np.allclose(ds, e, rtol=1e-8, atol=1e-12):
            return f"series {si}: duration probabilities"
        T, pi = (np.asarray(x) for x in Tpi[si])
        e = np.exp(lT) if I.tv else np.exp(lT[:, :, 0])
        if T.shape != e.shape or not np.allclose(T, e, rtol=1e-8, atol=1e-12):
            return f"series {si}: transition probabilities"
        if pi.shape != (I.ns,) or not np.allclose(pi, np.exp(lpi), rtol=1e-8, atol=1e-12):
            return f"series {si}: initial probabilities"
    return None


def probs(chk, specs):
    rng = np.random.default_rng(7400 + chk.seed)
    specs = list(specs) + [big_spec(rng, hmp=k % 3 == 2) for k in range(10 if chk.quick else 100)]
    for k, s in enumerate(specs):
        I = Instance(s, np.random.default_rng([chk.seed, k, 16]))
        rep = dict(spec=s, k=k, what="probabilities")
        with chk.guard("probabilities", rep) as g:
            F, a = I.real()
            od = F.compute_od_probs(*a, log=False)
            odl = F.compute_od_probs(*a, log=True)
            Tpi = F.compute_Tpi(*a)
        if g.failed:
            continue
        d = cmp_probs(I, od, Tpi)
        if d is None:
            d = cmp_probs(I, [[np.exp(np.asarray(x)) for x in o] for o in odl], Tpi)
            d = d and "log scale: " + d
        if d is not None and I.hits_known_signals():
            I.use_known_signals = True
            d2 = cmp_probs(I, od, Tpi)
            I.use_known_signals = False
            if d2 is None:
                chk.violation("probabilities", d, rep, finding="hmp-shared-signals")
                chk.ok()
                continue
        if d is not None:
            chk.violation("probabilities", d, rep)
        else:
            chk.ok()
