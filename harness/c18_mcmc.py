"""C18: sampling from the posterior (spec/Nuts.tla, spec/Chains.tla)."""

import contextlib
import inspect
import os
import warnings
from collections import Counter, defaultdict

import numpy as np
import scipy as scp

from . import fit_oracle as fo
from . import zoo
from .c08_data import Bad, need
from .c13_fit import near
from .common import deadline, pmap, tla

NINV = ["Kept", "Around", "Undone", "Likely", "Balanced"]
CINV = ["Seamless", "Clean", "Complete", "Whole", "Enough"]
LIMIT = 1e-9  # probability below which a frequency is not put down to chance


def parts():
    import mcmc as ext
    import mssm.src.python.mcmc as M

    return ext, M


def eigen(A):
    from mssm.src.python.gamm_solvers import map_csc_to_eigen

    return map_csc_to_eigen(scp.sparse.csc_array(np.asarray(A, float)))


# --------------------------------------------------------------------------- transitions
class Lattice:
    """The callables of a system of the specification."""

    def __init__(self, s):
        self.s = s
        self.Minv = eigen(np.reshape(s["metric"], (2, 2)))
        self.seen = []
        self.drawn = []

    def cell(self, x):
        return int(self.s["mix"][0] * x[0] + self.s["mix"][1] * x[1]) % 3

    @staticmethod
    def point(x):
        x = np.ravel(x)
        r = np.rint(x)
        need(np.max(np.abs(x - r)) < 1e-6, "a step does not follow the integrator")
        return int(r[0]), int(r[1])

    def llk(self, x):
        p = self.point(x)
        self.seen.append(p)
        return float(self.s["value"][self.cell(p)])

    def grad(self, x):
        return np.array(self.s["grad"][self.cell(self.point(x))], float).reshape(-1, 1)

    def momentum(self, seed):
        self.drawn.append((seed, len(self.seen)))
        return np.array(self.s["r"], float).reshape(-1, 1)

    def leap(self, x, v):
        M = np.reshape(self.s["metric"], (2, 2))
        g = np.array(self.s["grad"][self.cell(x)], float)
        return self.point(np.array(x, float) + v * (M @ (np.array(self.s["r"], float) + 0.5 * v * g)))

    def advance(self, seed, m, Madapt, steps, max_j, Hbar=0.3, eps=1.0, epsbar=1.0, mu=0.2, delta=0.7, kappa=0.75,
                gamma=0.05, t0=10):
        ext, _ = parts()
        self.seen, self.drawn = [], []
        x0 = np.zeros((2, 1))
        return ext.advance_chain(seed, m, Madapt, steps, float(self.s["value"][0]), x0, *self.Minv, eps, epsbar, Hbar, mu,
                                 delta, kappa, gamma, t0, max_j, self.llk, self.grad, self.momentum)


def choose(n, seed, max_j, pool_size=1500):
    """Numbers of systems of the specification: such that each part of the turning criterion, at each place it
    is evaluated, decides about something in several of them; the others at random."""
    metrics = [(1, 0, 0, 1), (2, 1, 1, 2), (1, 0, 0, 2), (1, 1, 1, 2)]
    slopes = [0, 0, 2, -2, 0, 4, -2]
    values = [0, 0, 1, -1, -2, 2, 0, -1, -3000]

    def pick(a, b, seq):
        m = (a * 7919 + b * 10473 + a * b * 31 + (((a * a) % 101) + 3 * (seed % 97)) * ((b * b) % 89) * 17
             + ((seed % 1000) * 12997)) % 65521
        return seq[m % len(seq)]

    def told(a):
        M = np.reshape(pick(a, 1, metrics), (2, 2))
        G = [np.array((pick(a, 10 + i, slopes), pick(a, 20 + i, slopes))) for i in (1, 2, 3)]
        far = [i for i in (2, 3) if pick(a, 30 + i, values) < -1000]
        mix = pick(a, 40, [(1, 1), (1, 0), (1, 2)])
        reach = 2 ** max_j
        z0 = (np.zeros(2, int), np.array(pick(a, 50, [(1, 0), (1, 1), (0, 1), (-1, 1), (2, 1)])))

        def cell(x):
            return (mix[0] * x[0] + mix[1] * x[1]) % 3

        t = {0: z0}
        for v in (1, -1):
            x, r = z0
            for o in range(1, reach):
                r1 = r + v * (G[cell(x)] // 2)
                x = x + v * (M @ r1)
                r = r1 + v * (G[cell(x)] // 2)
                t[v * o] = (x, r)
        lost = {o for o in t if cell(t[o][0]) + 1 in far}
        found = set()

        def turns(one, two, v, where):
            """one, two: (first, last) in the direction of growth"""
            if v == 1:
                b1, e1 = one
            else:
                b1, e1 = one[::-1] if one[0] < one[1] else one
            b2, e2 = two
            R = {q: t[q][1] for q in (b1, e1, b2, e2)}
            s1 = sum(t[o][1] for o in range(min(one), max(one) + 1))
            s2 = sum(t[o][1] for o in range(min(two), max(two) + 1))

            def parts6(rb1, rb2, re1, re2):
                al, l1, r1 = s1 + s2, s1 + rb2, s2 + re1
                return [(M @ p) @ d > 0 for p, d in ((rb1, al), (re2, al), (rb1, l1), (rb2, l1), (re1, r1), (re2, r1))]

            c = parts6(R[b1], R[b2], R[e1], R[e2])
            for i in range(6):
                if not c[i] and sum(c) == 5:
                    found.add((where, v, i))
            for nm, alt in (("old", (R[e1], R[b2], R[b1], R[e2])), ("new", (R[b1], R[e2], R[e1], R[b2]))):
                if all(parts6(*alt)) != all(c):
                    found.add((where, v, nm))
            return not all(c)

        def grow(o, v, j):
            if j == 0:
                return o not in lost
            half = 2 ** (j - 1)
            if not grow(o, v, j - 1) or not grow(o + v * half, v, j - 1):
                return False
            one, two = (o, o + v * (half - 1)), (o + v * half, o + v * (2 * half - 1))
            return not turns(one, two, v, "sub")

        def double(lo, hi, j):
            if j == max_j:
                return
            for v in (1, -1):
                o = hi + 1 if v == 1 else lo - 1
                if grow(o, v, j):
                    one = (lo, hi) if v == 1 else (hi, lo)
                    # the last doubling ends the transition anyway
                    if j < max_j - 1 and not turns(one, (o, o + v * (2 ** j - 1)), v, "top"):
                        double(min(lo, o + v * (2 ** j - 1)), max(hi, o + v * (2 ** j - 1)), j + 1)

        double(0, 0, 0)
        return found

    seen, use, left = Counter(), [], {a: told(a) for a in range(1, pool_size)}
    for _ in range(n // 2):
        a = max(left, key=lambda b: sum(1 / (1 + 2 * seen[f]) ** 2 for f in left[b]))
        seen.update(left.pop(a))
        use.append(a)
    return use + list(left)[: n - len(use)], len(seen)


def expected(recs):
    """Exact distribution of what is seen of one transition of a system."""
    out = defaultdict(float)
    lo = min(r["cut"] for r in recs)
    for r in recs:
        top = np.exp(-(r["h0"] - r["cut"]) / 2)
        p = top - (0.0 if r["cut"] == lo else np.exp(-(r["h0"] - r["lower"]) / 2))
        a = round(float(np.mean(np.minimum(1, np.exp((np.array(r["last"], float) - r["h0"]) / 2)))), 9)
        key = (tuple(r["to"]), frozenset(map(tuple, r["seen"])) | {(0, 0)}, a)
        out[key] += p * r["w"][0] / r["w"][1]
    need(abs(sum(out.values()) - 1) < 1e-9, f"specification: probabilities sum to {sum(out.values())}")
    return out


def frequencies(got, probs, N, what):
    for k, c in got.items():
        p = probs.get(k, 0.0)
        need(p > 0, f"{what}: {k[0]} after {len(k[1])} positions cannot occur ({c} of {N} times)")
    for k, p in probs.items():
        c = got.get(k, 0)
        p = min(p, 1.0)
        if p < 1e-12:
            continue
        tail = scp.stats.binom.sf(c - 1, N, p) if c > N * p else scp.stats.binom.cdf(c, N, p)
        need(tail > LIMIT, f"{what}: {k[0]} after {len(k[1])} positions occurs {c} of {N} times, probability {p:.4f}")


def pool(d):
    """Frequencies of states alone, of positions alone and of both."""
    out = [defaultdict(float) for _ in range(3)]
    for (to, seen, a), v in d.items():
        out[0][(to, frozenset(), 0)] += v
        out[1][((0, 0), seen, a)] += v
        out[2][(to, seen, a)] += v
    return out


def check_transition(recs, N, seed0, max_j):
    L = Lattice(recs[0]["sys"])
    probs = expected(recs)
    accs = sorted({k[2] for k in probs})
    got = Counter()
    for i in range(N):
        # tuning, its last transition, afterwards
        tune = 30
        m = (5, tune - 1, 40)[i % 3]
        eb = 1.0 if i % 2 else 0.5
        llks, states, eps, epsbar, Hbar = L.advance(seed0 + i, m, tune, 1, max_j, epsbar=eb)
        to = L.point(states[:, 0])
        need(abs(llks[0] - L.s["value"][L.cell(to)]) < 1e-9, "the log-density returned is not that of the state")
        seen = frozenset(L.seen) | {(0, 0)}
        if m == 5:
            m1 = m + 1
            a = 0.7 - (Hbar - (1 - 1 / (m1 + 10)) * 0.3) * (m1 + 10)
            j = int(np.argmin(np.abs(np.array(accs) - a)))
            need(abs(accs[j] - a) < 1e-6, f"rate of acceptance {a} used for tuning, possible: {accs[:6]}")
            e = np.exp(0.2 - np.sqrt(m1) / 0.05 * Hbar)
            near(eps, e, 1e-9, "tuned step length")
            near(epsbar, np.exp(m1 ** -0.75 * np.log(e) + (1 - m1 ** -0.75) * np.log(eb)), 1e-9, "averaged step length")
            got[(to, seen, accs[j])] += 1
        else:
            need(eps == eb and epsbar == eb and Hbar == 0.3, "tuning goes on after its end")
            got[(to, seen, None)] += 1
    for tuned in (True, False):
        g = Counter()
        for k, c in got.items():
            if (k[2] is not None) == tuned:
                g[(k[0], k[1], k[2] if tuned else 0)] += c
        q = defaultdict(float)
        for k, p in probs.items():
            q[(k[0], k[1], k[2] if tuned else 0)] += p
        n = sum(g.values())
        for a, b, what in zip(pool(g), pool(q), ("state", "trajectory", "state and trajectory")):
            frequencies(a, b, n, what)


def check_block(recs, seed0, max_j, rng):
    """Several transitions at once: one follows on the other."""
    L = Lattice(recs[0]["sys"])
    draws = set()
    for i in range(40):
        steps = int(rng.integers(2, 7))
        llks, states, eps, epsbar, Hbar = L.advance(seed0 + i, 50, 50, steps, max_j)
        need(states.shape[1] == steps and len(llks) == steps, "number of states of a block")
        need(len(L.drawn) == steps, "momentum is not drawn once per transition")
        x = (0, 0)
        for j in range(steps):
            first = [p for p in L.seen[L.drawn[j][1]:] if p != x][:1]
            if first:
                need(first[0] in (L.leap(x, 1), L.leap(x, -1)), "a transition does not start at the state of the one before")
            x = L.point(states[:, j])
            need(abs(llks[j] - L.s["value"][L.cell(x)]) < 1e-9, "the log-density returned is not that of the state")
        need(len({d[0] for d in L.drawn}) == steps, "momenta of a block share a seed")
        draws.add(tuple(d[0] for d in L.drawn))
        again = L.advance(seed0 + i, 50, 50, steps, max_j)
        need(np.array_equal(again[1], states), "the same seed gives other states")
    need(len(draws) == 40, "other seeds give the same momenta")


def check_search(rec, rng):
    """Search for the first step length."""
    ext, _ = parts()
    for _ in range(3):
        minv, g, r = float(rng.choice([1.0, 2.0, 0.5])), float(rng.choice([0.0, 1.0, -1.5])), float(rng.choice([1.0, 2.0]))
        L0 = float(rng.normal())
        gain = {}
        where = {}
        for i, good in enumerate(rec["good"]):
            e = 0.1 * 2.0 ** (i - 3)
            d = float(rng.choice([0.3, 0.0, -0.6] if good else [-0.8, -3.0, -400.0]))
            r2 = r + e * g
            gain[i - 3] = L0 + d + 0.5 * minv * (r2 ** 2 - r ** 2)
            where[i - 3] = e * minv * (r + 0.5 * e * g)
        tried = []

        def find(x):
            x = float(np.ravel(x)[0])
            k = min(where, key=lambda q: abs(where[q] - x))
            need(abs(where[k] - x) < 1e-9 * (1 + abs(x)), f"a step of an unexpected length is tried ({x})")
            return k

        def llk(x):
            k = find(x)
            tried.append(k)
            return gain[k]

        e = ext.find_reasonable_epsilon(np.zeros((1, 1)), np.full((1, 1), g), *eigen([[minv]]), L0, llk,
                                        lambda x: np.full((1, 1), g), lambda s: np.full((1, 1), r), 5)
        near(e, 0.1 * 2.0 ** rec["pos"], 1e-12, "step length found")
        need(list(dict.fromkeys(tried)) == rec["tried"], f"steps tried {tried}, expected {rec['tried']}")


def check_prior(rec):
    from mssm.src.python.utils import CenteredUniformRhoPriors, MVUniformRhoPrior

    ends = np.array(rec["ends"], float)
    if rec["shared"]:
        P = MVUniformRhoPrior(*ends[0])
    else:
        mid = ends.mean(axis=1)
        P = CenteredUniformRhoPriors(mid, a=ends[:, 0].min(), b=ends[:, 1].max(), c=10.0)
        if not (np.allclose(P.a, ends[:, 0]) and np.allclose(P.b, ends[:, 1])):
            if not np.allclose(ends[:, 1] - ends[:, 0], (ends[:, 1] - ends[:, 0])[0]):
                return False
            P = CenteredUniformRhoPriors(mid, a=-50, b=50, c=(ends[0, 1] - ends[0, 0]) / 2)
    x = np.array([rec["at"], [e[0] + 0.25 for e in ends]], float)
    keep = x.copy()
    lp = P.logpdf(x)
    dens = -np.log(np.array(rec["widths"], float)).sum()
    near(lp[1], dens, 1e-12, "density of the prior")
    need((np.isclose(lp[0], dens) if rec["possible"] else lp[0] == -np.inf), f"density {lp[0]} of the prior")
    y = P.make_valid(x)
    need(np.array_equal(x, keep), "the proposal itself is changed")
    need(np.all(y >= ends[:, 0]) and np.all(y <= ends[:, 1]), f"{y[0]} is not within the limits of the prior")
    need(np.isfinite(P.logpdf(y)).all(), "a valid proposal is impossible")
    for i in range(2):
        if rec["stay"][i]:
            need(y[0, i] == x[0, i], "a valid proposal is changed")
    need(np.array_equal(y[1], x[1]), "a valid proposal is changed")
    need(not np.any(P.dlpdrho(y)), "gradient of a uniform prior")
    return True


# --------------------------------------------------------------------------- runs
@contextlib.contextmanager
def instead(ext, M, advance=None, search=None, converge=None):
    o = ext.advance_chain, ext.find_reasonable_epsilon, M.check_convergence
    ext.advance_chain, ext.find_reasonable_epsilon = advance or o[0], search or o[1]
    M.check_convergence = converge or o[2]
    try:
        yield
    finally:
        ext.advance_chain, ext.find_reasonable_epsilon, M.check_convergence = o


NAMES = ("seed m Madapt steps cL state r c nz d p i eps epsbar Hbar mu delta kappa gamma t0 max_j llk grad draw").split()


def check_run(model, rec, sample_rho):
    ext, M = parts()
    cfg = rec["cfg"]
    C, T, n = cfg["chains"], cfg["tune"], cfg["iters"]
    first, calls, last = [], [], {}

    def tag(chain, it):
        return 1000.0 * (chain + 1) + it

    def search(state, *a):
        first.append(np.array(state, float).ravel())
        return 0.1 * (len(first) + 1)

    def advance(*a):
        a = dict(zip(NAMES, a))
        chain = int(round(np.exp(a["mu"]) - 2))
        need(0 <= chain < C and abs(np.exp(a["mu"]) - (chain + 2)) < 1e-9, "mu is not the logarithm of ten times the first step")
        st = np.ravel(a["state"])
        if chain not in last:
            need(any(np.array_equal(st, f) for f in first), "a chain does not start where its step length was found")
            near(a["cL"], a["llk"](a["state"]), 1e-12, "log-density of the first state")
            need(abs(a["eps"] - 0.1 * (chain + 2)) < 1e-12 and a["epsbar"] == 1 and a["Hbar"] == 0, "first parameters of tuning")
        else:
            p = last[chain]
            need(np.array_equal(st, p["state"]) and a["cL"] == p["llk"], "a block does not continue the chain")
            if a["m"] == T:
                e = np.mean([last0[c]["epsbar"] for c in range(C)])
                need(abs(a["eps"] - e) < 1e-12 and abs(a["epsbar"] - e) < 1e-12, "step length after tuning is not that of all chains")
            else:
                need(a["eps"] == p["eps"] and a["epsbar"] == p["epsbar"] and a["Hbar"] == p["Hbar"], "tuning is not continued")
        need(a["delta"] == 0.55 and a["kappa"] == 0.8 and a["gamma"] == 0.06 and a["t0"] == 9 and a["Madapt"] == T, "parameters of tuning")
        need(a["max_j"] == (3 if a["m"] < T else 6), f"{a['max_j']} doublings from transition {a['m']}")
        its = np.arange(a["m"] + 1, a["m"] + a["steps"] + 1)
        k = len(st)
        states = np.array([[tag(chain, i) + j / 100 for i in its] for j in range(k)])
        llks = np.array([tag(chain, i) + 0.005 for i in its])
        e = 0.1 + chain / 10 + a["m"] / 1000
        new = (e, e / 2, e / 3) if a["m"] + 1 < T else (a["epsbar"], a["epsbar"], a["Hbar"])
        last[chain] = dict(state=states[:, -1], llk=llks[-1], eps=new[0], epsbar=new[1], Hbar=new[2])
        if not calls or calls[-1][0] != a["m"]:
            calls.append((a["m"], a["steps"], {}))
        need(chain not in calls[-1][2], "a chain is advanced twice")
        need(calls[-1][1] == a["steps"], "chains are advanced by different numbers of steps")
        calls[-1][2][chain] = a["seed"]
        if len(calls[-1][2]) == C:
            last0.clear()
            last0.update({c: dict(v) for c, v in last.items()})
        return llks, states, *new

    last0 = {}
    asked, heard = [], []
    sig = inspect.signature(M.check_convergence)

    def window(res, lo, hi, what, names):
        for nm, off in names:
            v = res[nm]
            need(v is not None and v.shape[:2] == (C, hi - lo), f"{what}: {nm} has shape {None if v is None else v.shape}")
            for c in range(C):
                w = np.array([tag(c, i) for i in range(lo + 1, hi + 1)])
                if off == "llk":
                    x = (w + 0.005)[:, None]
                else:
                    x = w[:, None] + (off + np.arange(v.shape[2])) / 100
                need(np.allclose(v[c], x, atol=1e-9), f"{what}: {nm} of chain {c} are not those of transitions {lo + 1} to {hi}")

    def converge(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        g = b.arguments
        hi = calls[-1][0] + calls[-1][1]
        lo = hi - g["coef_samples"].shape[1]
        window(g, lo, hi, "judging convergence", [(nm + "_samples", o) for nm, o in offsets("coef", "scale", "theta", "llk", "rho")])
        need(g["model"] is model, "judging convergence of another model")
        asked.append([lo, hi])
        good = cfg["calm"] > 0 and len(asked) >= cfg["calm"]
        ess, rhat, mcse = np.full(4, 4.0 * C + 0.5), np.full(4, 1.049), np.full(4, 0.1)
        if not good and len(asked) % 2:
            ess[len(asked) % 4] = 4.0 * C - 0.5
        elif not good:
            rhat[len(asked) % 4] = 1.051
        return ess, rhat, mcse

    F = fo.Fit("x", model)
    nco = F.n
    extra = 1 if getattr(model.family, "twopar", False) else 0
    th = 0 if getattr(model.family, "theta", None) is None else len(np.ravel(model.family.theta))

    def offsets(co, sc, the, lp, rh):
        out = [(co, 0), (lp, "llk")]
        if extra:
            out.append((sc, nco))
        if th:
            out.append((the, nco))
        if sample_rho:
            out.append((rh, nco + extra + th))
        return out

    names = offsets("coefs", "lscales", "thetas", "lps", "rhos")

    def note(it, res):
        heard.append(it)
        window({k: getattr(res, k) for k, _ in names}, T, T + it, "callback", names)

    # stand-ins refuse, so that their complaints are not swallowed
    with instead(ext, M, advance, search, converge):
        r = M.sample_mssm(model, n_iter=n, n_steps=cfg["block"], min_iter=cfg["min"], max_rhat=1.05, min_ess=4, M_adapt=T,
                          delta=0.55, kappa=0.8, gamma=0.06, t0=9, max_j=6, max_j_adapt=3, callback=note, n_chains=C,
                          parallelize_chains=False, auto_converge=cfg["auto"], sample_rho=sample_rho, seed=3, progress_bar=False)
    need(len(first) == C, "number of chains")
    if C > 1:
        need(not np.array_equal(first[0], first[1]), "chains start at the same state")
    got = [dict(**{"from": m, "steps": s}, tuning=m < T) for m, s, _ in calls]
    need(got == rec["plan"], f"blocks {[(g['from'], g['steps']) for g in got]}, "
                             f"expected {[(g['from'], g['steps']) for g in rec['plan']]}")
    for m, s, ch in calls:
        need(len(ch) == C, "a chain is left out")
    if C > 1 and len(calls) > 1:
        need(len({v for _, _, ch in calls for v in ch.values()}) > 1, "all chains and blocks share one seed")
        need(any(len(set(ch.values())) > 1 for _, _, ch in calls), "all chains share their seeds")
    need(asked == rec["asked"], f"convergence is judged for {asked}, expected {rec['asked']}")
    need(heard == rec["heard"], f"callback after {heard}, expected {rec['heard']}")
    window({k: getattr(r, k) for k, _ in names}, rec["kept"][0] - 1, rec["kept"][-1], "returned", names)


# --------------------------------------------------------------------------- target
class Stop(Exception):
    pass


def capture(m, **kw):
    ext, M = parts()
    got = {}

    def advance(*a):
        got.update(zip(NAMES, a))
        raise Stop

    with instead(ext, M, advance, lambda *a: 0.1):
        with contextlib.suppress(Stop):
            M.sample_mssm(m, parallelize_chains=False, progress_bar=False, n_chains=1, **kw)
    return got


def normal_prior(rng):
    from mssm.src.python.utils import RhoPrior

    class Normal(RhoPrior):
        def logpdf(self, rho):
            return -0.5 * ((rho - 1.5) ** 2).sum(axis=1) / 4 + 0.3 * rho[:, 0]

        def dlpdrho(self, rho):
            g = -(rho - 1.5) / 4
            g[:, 0] += 0.3
            return g

        def make_valid(self, rho):
            return np.clip(rho, -12, 12)

    return Normal()


def fitted(name, seed, off):
    with contextlib.redirect_stdout(open(os.devnull, "w")):
        e = zoo.ALL[name](seed)
        e.fit(**({} if off is None else {"rho": 0.4} if off == "ar" else {"offset": off}))
    if name.startswith("prophaz"):
        e.model.family._vp_time = e.d["y"].to_numpy()
    return e


def check_target(name, e, off, sample_rho, rng, n_points=3):
    """Log-density and gradient the sampler is given, and its momenta."""
    m = e.model
    F = fo.Fit(name, m, 0.0 if off in (None, "ar") else off)
    prior = normal_prior(rng) if sample_rho and len(F.lam) and rng.uniform() < 0.7 else None
    kw = {} if prior is None else {"rho_prior": prior}
    if rng.uniform() < 0.6:
        kw.update(scale_cov_phi_theta=2.5, scale_cov_rho=0.4, init_unconditional=bool(sample_rho and rng.uniform() < 0.6))
    g = capture(m, sample_rho=sample_rho, make_proper=False, **kw)
    need("state" in g, "nothing is sampled")
    n, k = F.n, np.size(g["state"])
    nr = len(F.lam) if sample_rho else 0
    ns = k - n - nr
    need(ns == (1 if F.gamm and m.family.twopar else 0 if F.theta is None else len(F.theta)), f"{ns} further parameters")
    Z = fo.Fit(name, m, F.offset)
    if off == "ar":  # rows in the order of the data, one series
        R = np.eye(len(F.y[0]))
        for i in range(1, len(R)):
            R[i, i - 1], R[i, i] = -0.4 / np.sqrt(1 - 0.16), 1 / np.sqrt(1 - 0.16)
        Z.X, Z.y = [R @ F.X[0]], [R @ F.y[0]]

    def joint(w):
        b, ex, rho = w[:n], w[n:n + ns], w[n + ns:]
        if F.theta is not None:
            Z.theta = ex
        elif ns:
            Z.phi = float(np.exp(ex[0]))
        else:
            Z.phi = F.phi
        v = Z.llk(b)
        lam = np.exp(rho) if sample_rho else F.lam / F.phi
        Z.S = sum((l * P for l, P in zip(lam, F.parts)), np.zeros((n, n)))
        Z.phi = 1.0
        v -= 0.5 * b @ Z.S @ b
        if prior is not None:
            v += float(prior.logpdf(rho[None])[0])
        if sample_rho:
            v += 0.5 * sum(np.linalg.slogdet(C)[1] + 2 * np.log(d).sum() for _, U, C, d in Z.blocks())
        return v

    base = np.r_[F.b, F.theta if F.theta is not None else [np.log(F.phi)] if ns else [],
                 np.clip(np.log(F.lam / F.phi), -15, 15) if sample_rho else []]
    # steps that the model itself regards as small
    sd = np.r_[np.sqrt(np.maximum(np.diag(F.V()), 1e-12)), np.full(k - n, 0.2)]
    W = [base + 0.3 * sd * rng.normal(size=k) for _ in range(n_points)]
    got = np.array([float(g["llk"](w.reshape(-1, 1))) for w in W])
    want = np.array([joint(w) for w in W])
    if not np.isfinite(want).all():
        return False
    near(got - got[0], want - want[0], 1e-6 if not sample_rho else 1e-5, "differences of the log joint density")
    need(abs(float(g["cL"]) - float(g["llk"](np.reshape(g["state"], (-1, 1))))) <= 1e-9 * (1 + abs(float(g["cL"]))), "log-density of the first state")
    gr = np.ravel(g["grad"](W[0].reshape(-1, 1)))
    ng = np.zeros(k)
    for j in range(k):
        h = 1e-4 * max(sd[j], 1e-3)
        u, d = W[0].copy(), W[0].copy()
        u[j] += h
        d[j] -= h
        ng[j] = (joint(u) - joint(d)) / (2 * h)
    s = np.maximum(sd, 1e-6)
    near(gr * s, ng * s, 2e-3, "gradient of the log joint density")
    # momenta belong to the metric
    Minv = scp.sparse.csc_array((g["d"], g["i"], g["p"]), shape=(g["r"], g["c"])).toarray()
    near(Minv, Minv.T, 1e-10, "symmetry of the metric")
    ev, U = np.linalg.eigh(Minv)
    if ev.min() > 1e-10 * ev.max():
        N = 3000
        D = np.stack([np.ravel(g["draw"](s)) for s in range(N)])
        w = D @ (U * np.sqrt(ev))
        z = np.sqrt(N) * np.abs(w.mean(axis=0)).max()
        need(z < 7, "momenta are not centred")
        Cv = w.T @ w / N
        z = np.abs(Cv - np.eye(k)) * np.sqrt(N / (1 + np.eye(k)))
        need(z.max() < 7.5, f"the covariance of momenta is not the inverse of the metric ({Cv.flat[np.argmax(z)]:.3f} after "
                            f"standardising, {divmod(int(np.argmax(z)), k)})")
    return True


def check_proper(name, e, off, rng):
    """What is added to make the prior proper: a penalty on what is not penalised."""
    m = e.model
    F = fo.Fit(name, m, 0.0 if off in (None, "ar") else off)
    n = F.n
    b = capture(m, make_proper=False)
    k = np.size(b["state"])
    own = 0.25 if k - n < 2 or rng.uniform() < 0.5 else [0.25, 0.75]
    a = capture(m, make_proper=True, lambda_0=0.5, phi_theta_lambda_0=own)
    N = sum((P / max(np.abs(P).max(), 1e-300) for P in F.parts), np.zeros((n, n)))
    ev, U = np.linalg.eigh(N)
    U = U[:, ev < 1e-9 * max(ev.max(), 1)]
    S0 = np.zeros((k, k))
    S0[:n, :n] = 0.5 * U @ U.T
    for j in range(n, k):
        S0[j, j] = own[j - n] if isinstance(own, list) else own
    if not (F.gamm or F.lss or name.startswith("prophaz")):  # further parameters among the coefficients
        S0[F.ends[-1]:n] = S0[:, F.ends[-1]:n] = 0
        S0[F.ends[-1]:n, F.ends[-1]:n] = 0.5 * np.eye(n - F.ends[-1])
    base = np.r_[F.b, F.theta if F.theta is not None else [np.log(F.phi)] if k > n else []]
    sd = np.r_[np.sqrt(np.maximum(np.diag(F.V()), 1e-12)), np.full(k - n, 0.2)]
    for sr in ((False, True) if len(F.lam) and n < 40 else (False,)):
        if sr:
            a = capture(m, make_proper=True, lambda_0=0.5, phi_theta_lambda_0=own, sample_rho=True)
            b = capture(m, make_proper=False, sample_rho=True)
        tail = np.clip(np.log(F.lam / F.phi), -15, 15) if sr else []
        for _ in range(6):
            w = base + sd * rng.normal(size=k) * 0.5
            x = np.r_[w, tail].reshape(-1, 1)
            la, lb = float(a["llk"](x)), float(b["llk"](x))
            if not np.isfinite(lb):
                continue
            near(lb - la, 0.5 * w @ S0 @ w, 1e-6 * max(1.0, abs(lb) * 1e-6), "log-density of the prior on what is not penalised")
            ga, gb = np.ravel(a["grad"](x)), np.ravel(b["grad"](x))
            near((gb - ga)[:k], S0 @ w, 1e-5, "gradient of the prior on what is not penalised")


# --------------------------------------------------------------------------- whole runs
def check_whole(name, e, kw):
    """Chains side by side and one after another, and the same seed again."""
    _, M = parts()
    r = [M.sample_mssm(e.model, parallelize_chains=p, progress_bar=False, n_chains=2, seed=s, **kw)
         for p, s in ((False, 3), (True, 3), (False, 3), (False, 4))]
    for k in ("lps", "coefs", "lscales", "thetas", "rhos"):
        a = [getattr(x, k) for x in r]
        if a[0] is None:
            need(a[1] is None, f"{k} of chains in parallel")
            continue
        need(a[0].shape == a[1].shape and np.allclose(a[0], a[1], rtol=1e-6, atol=1e-8), f"{k} of chains in parallel differ")
        need(np.array_equal(a[0], a[2]), f"{k} of the same seed differ")
        need(a[0].shape != a[3].shape or not np.array_equal(a[0], a[3]), f"{k} of another seed are the same")
        need(not np.array_equal(a[0][0], a[0][1]), f"{k} of both chains are the same")


def check_normal(e, name, n_iter):
    """The posterior of an additive model is a mixture of normals over its scale."""
    import arviz

    _, M = parts()
    F = fo.Fit(name, e.model)
    X, y, S = F.X[0], F.y[0], F.S / F.phi
    ls = np.log(F.phi) + np.linspace(-1.2, 1.2, 241)
    lw, mean, second = [], [], []
    for u in ls:
        A = X.T @ X / np.exp(u) + S
        V = np.linalg.inv(A)
        b = V @ (X.T @ y) / np.exp(u)
        lw.append(-0.5 * len(y) * u - 0.5 * (y @ y) / np.exp(u) + 0.5 * b @ A @ b - 0.5 * np.linalg.slogdet(A)[1])
        mean.append(b)
        second.append(V)
    w = np.exp(np.array(lw) - max(lw))
    w /= w.sum()
    need(max(w[0], w[-1]) < 1e-7, "the grid does not cover the posterior")
    b = w @ np.array(mean)
    V = sum(p * (v + np.outer(m - b, m - b)) for p, v, m in zip(w, second, mean))
    u, s = float(w @ ls), float(np.sqrt(w @ ls ** 2 - (w @ ls) ** 2))
    r = M.sample_mssm(e.model, parallelize_chains=False, progress_bar=False, n_chains=2, auto_converge=False, n_iter=n_iter,
                      M_adapt=200, n_steps=200, make_proper=False, seed=11)
    ev, U = np.linalg.eigh(V)
    z = np.concatenate([(r.coefs - b) @ (U / np.sqrt(ev)), (r.lscales - u) / s], axis=2)
    for j in range(z.shape[2]):
        x = z[:, :, j]
        m = float(arviz.ess(x))
        need(m > 30, f"effective size {m}")
        need(abs(x.mean()) * np.sqrt(m) < 8, f"mean of the samples is off by {x.mean():.3f} standard deviations ({j})")
        m2 = float(arviz.ess(x ** 2))
        need(abs((x ** 2).mean() - 1) * np.sqrt(m2 / 2) < 8, f"variance of the samples is {(x ** 2).mean():.3f} times that of the posterior ({j})")


def check_statistics(name, e, rng):
    """Statistics of convergence: of halves of chains; of all or of the group level coefficients."""
    import arviz

    _, M = parts()
    from mssm.models import fs

    m = e.model
    n = len(np.ravel(m.coef))
    N = int(rng.choice([21, 30]))
    mk = lambda k: rng.normal(size=(2, N, k)).cumsum(axis=1)  # noqa: E731
    co, sc, rh, lp = mk(n), mk(1), mk(2), mk(1)
    keep = []
    at = 0
    for form in m.formulas:
        for t in range(len(form.terms)):
            ix = np.asarray(form.coef_idx_per_term[t], int) + at
            if t in form.get_linear_term_idx() or (t in form.get_smooth_term_idx() and not isinstance(form.terms[t], fs)):
                keep.extend(ix.tolist())
        at += form.n_coef
    keep = sorted(keep)
    h = N // 2
    for typ in (0, 1):
        for s, t, r in ((sc, None, rh), (None, sc, None), (None, None, None)):
            ess, rhat, mcse = M.check_convergence(co, s, t, lp, r, m, type=typ)
            x = np.concatenate([co if typ == 0 else co[:, :, keep]] + [v for v in (s, t, r) if v is not None] + [lp], axis=2)
            halves = np.stack([x[c, p * h:(p + 1) * h] for c in range(2) for p in range(2)])
            d = arviz.convert_to_dataset(halves)
            near(rhat, arviz.rhat(d).x.data, 1e-9, f"agreement of chains (type {typ})")
            near(ess, arviz.ess(d, method="tail").x.data, 1e-9, f"effective size (type {typ})")
            near(mcse, arviz.mcse(d, method="mean").x.data, 1e-9, f"error of the mean (type {typ})")


QUICK = [("gauss_mix", None), ("gauss_mix", 0.4), ("gauss_inter", "ar"), ("gauss_fs", None), ("gauss_lin", None), ("gauss_by", None), ("gausslog", None),
         ("binom_mix", None), ("poisson_by", 0.4), ("gamma_mix", None), ("invgauss", None), ("scaledt", None), ("gaumlss", None),
         ("gaumlss_lin", None), ("gammals", None), ("mulnom", None), ("multigauss", None), ("prophaz", None), ("gauss_shared", None),
         ("gaussfix_te", None), ("gauss_ids", None), ("poisson_ids", None), ("gamma_lin", None), ("scaledt_mix", None)]
FURTHER = [("gauss_mix", "ar"), ("gauss_by", "ar"), ("gauss_te", None), ("gauss_inter", None), ("poisson_by", None), ("gaumlss_ids", None), ("binomn_small", None), ("binom_lin", None),
           ("gamma_shared", None), ("gammafix_small", None), ("invgauss_lin", None), ("gaumlss_by", None), ("gaumlss_shared", None),
           ("gammals_mix", None), ("mulnom_mix", None), ("multigauss2", None), ("gamma_mix", 0.3), ("scaledt", 0.4)]


def run(chk):
    warnings.simplefilter("ignore")
    _, M = parts()
    ncfg, mj = (40, 3) if chk.quick else (160, 3)
    chosen, decisive = choose(ncfg, chk.seed, mj)
    chk.count("decisive_criteria", decisive)
    nuts = chk.tlc("Nuts", defs={"Chosen": tla(set(chosen))}, consts={"Seed": str(chk.seed), "MaxJ": str(mj)}, spec="Spec", invariants=NINV).records
    cc = {"Iters": "{1, 7, 20, 43}" if chk.quick else "{1, 2, 7, 20, 43, 64}", "Blocks": "{1, 4, 10}" if chk.quick else "{1, 3, 4, 10, 50}",
          "Tunes": "{3, 8, 20}", "ChainSets": "{1, 2}" if chk.quick else "{1, 2, 3}", "Calms": "{0, 1, 2}", "Mins": "{2, 9, 15}"}
    chains = chk.tlc("Chains", defs=cc, spec="Spec", invariants=CINV).records
    search = chk.tlc("Chains", defs=cc, spec="SSpec", invariants=["Crossed"]).records
    priors = chk.tlc("Chains", defs=cc, spec="PSpec", invariants=["Untouched"]).records
    systems = defaultdict(list)
    for r in nuts:
        systems[r["k"]].append(r)
    ks = sorted(systems)
    N = 3000 if chk.quick else 18000

    def guarded(fn, *a, seconds=300):
        try:
            with deadline(seconds):
                return fn(*a), None
        except Bad as e:
            return None, str(e)
        except Exception as e:  # noqa: BLE001
            return None, f"raises {type(e).__name__}: {e}"

    def moves(w):
        out = []
        for k in ks[w::8]:
            out.append(("transition", k, guarded(check_transition, systems[k], N, 1 + 100003 * k + 1000003 * chk.seed, mj)[1]))
            out.append(("block", k, guarded(check_block, systems[k], 7 + 7001 * k + chk.seed, mj, np.random.default_rng([chk.seed, k]))[1]))
        return out

    for part in pmap(moves, 8):
        for clause, k, bad in part:
            if bad:
                chk.violation(clause, f"system {k}: {bad}", {"system": systems[k][0]["sys"], "k": k})
            else:
                chk.ok()
    chk.count("systems", len(ks))
    chk.count("transitions_replayed", N * len(ks))
    rng = np.random.default_rng([chk.seed, 18])
    for r in search:
        _, bad = guarded(check_search, r, rng)
        if bad:
            chk.violation("search", bad, r)
        else:
            chk.ok()
    for r in priors:
        did, bad = guarded(check_prior, r)
        if bad:
            chk.violation("prior", bad, r)
        elif did:
            chk.ok()
    # the run around the transitions
    models = [(fitted(nm, 1, None).model, sr) for nm, sr in
              (("gausslog", False), ("poisson_by", False), ("scaledt", True), ("gammals", True), ("gausslog", True))]

    def runs(w):
        return [(j, guarded(check_run, models[j % 5][0], chains[j], models[j % 5][1])[1]) for j in range(w, len(chains), 8)]

    for part in pmap(runs, 8):
        for j, bad in part:
            if bad:
                chk.violation("run", f"{chains[j]['cfg']}: {bad}", chains[j])
            else:
                chk.ok()
    chk.count("runs", len(chains))

    # what is sampled
    jobs = [(nm, off, s) for nm, off in (QUICK if chk.quick else QUICK + FURTHER)
            for s in ([chk.seed] if chk.quick else [chk.seed, chk.seed + 1])]

    def target(j):
        nm, off, s = jobs[j]
        out, done = [], 0
        e, bad = guarded(fitted, nm, s, off)
        if bad:
            return [("fit", f"{nm}: {bad}")], 0
        if e.model.info.dropped is not None and len(e.model.info.dropped):
            return [], 0
        for sr in (False, True):
            ok, bad = guarded(check_target, nm, e, off, sr, np.random.default_rng([s, j, sr]))
            done += 1
            if bad:
                out.append(("target", f"{nm} offset={off} smoothing parameters sampled={sr}: {bad}"))
        _, bad = guarded(check_proper, nm, e, off, np.random.default_rng([s, j, 9]))
        done += 1
        if bad:
            out.append(("proper", f"{nm}: {bad}"))
        _, bad = guarded(check_statistics, nm, e, np.random.default_rng([s, j, 4]))
        done += 1
        if bad:
            out.append(("statistics", f"{nm}: {bad}"))
        return out, done

    for out, done in pmap(target, len(jobs)):
        chk.ok(done - len(out))
        chk.count("targets", done)
        for clause, msg in out:
            chk.violation(clause, msg, {"seed": chk.seed})

    whole = [("gauss_mix", dict(auto_converge=False, n_iter=30, M_adapt=20, n_steps=10)),
             ("gausslog", dict(auto_converge=False, n_iter=20, M_adapt=12, n_steps=5, sample_rho=True)),
             ("scaledt", dict(auto_converge=True, n_iter=200, M_adapt=20, n_steps=20, min_iter=10, min_ess=0, max_rhat=9.0)),
             ("gaumlss_lin", dict(auto_converge=False, n_iter=20, M_adapt=12, n_steps=5))]
    normal = [("gauss_lin", 1500), ("gauss_inter", 500)] if chk.quick else [("gauss_lin", 6000), ("gauss_lin", 6001), ("gauss_inter", 3000),
                                                                             ("gauss_by", 2001)]

    def final(j):
        if j < len(whole):
            nm, kw = whole[j]
            e = fitted(nm, chk.seed, None)
            return nm, "whole", guarded(check_whole, nm, e, kw, seconds=500)[1]
        nm, n = normal[j - len(whole)]
        e = fitted(nm, chk.seed + n % 2, None)
        return nm, "normal", guarded(check_normal, e, nm, n, seconds=500)[1]

    for nm, clause, bad in pmap(final, len(whole) + len(normal)):
        if bad:
            chk.violation(clause, f"{nm}: {bad}", {"model": nm})
        else:
            chk.ok()
    chk.sample(nuts[5])
    chk.sample(chains[9])
    chk.assumptions += ["frequencies are compared with exact probabilities of the specification; a deviation counts if its "
                        f"probability is below {LIMIT}",
                        "models from which coefficients were dropped are not sampled"]
