"""C01: the HSMM/HMP log-likelihood is the sum over the admissible histories of HSMM.tla."""

import warnings

import numpy as np

from .hsmm_inst import Instance, dp, histories
from .hsmm_specs import all_specs, big_spec, configs_for

warnings.simplefilter("ignore")


def close(a, b, tol=1e-8):
    if np.isneginf(a) and np.isneginf(b):
        return True
    return bool(np.isfinite(a) and np.isfinite(b) and abs(a - b) <= tol * max(1.0, abs(b)))


def compare(chk, I, real, oracle, clause, what):
    """oracle(): exact value; knows about the one recorded deviation of HMP signals."""
    exp = oracle()
    if close(real, exp):
        chk.ok()
        return True
    if I.hits_known_signals():
        I.use_known_signals = True
        kexp = oracle()
        I.use_known_signals = False
        if close(real, kexp):
            chk.violation(
                clause, f"{what}: {real!r} != {exp!r}", I.describe(), finding="hmp-shared-signals"
            )
            chk.ok()
            return True
    chk.violation(clause, f"{what}: code {real!r}, sum over histories {exp!r}", I.describe())
    return False


def run(chk):
    specs = all_specs(chk, 80, 900)
    hist = histories(chk, configs_for(specs))
    chk.count("histories", sum(len(p.states) for p in hist.values()))
    empty = sum(1 for p in hist.values() if not p.states)
    chk.count("configs_without_admissible_history", empty)
    for k, s in enumerate(specs):
        I = Instance(s, np.random.default_rng([chk.seed, k]))
        rep = dict(spec=s, k=k)
        with chk.guard("llk", rep) as g:
            F, a = I.real()
            before = [x.copy() if x is not None else None for x in a[2]]
            r = float(F.llk(*a))
            for x, y in zip(before, a[2]):
                if x is not None and not np.array_equal(x, y):
                    chk.violation("inputs-untouched", "observations changed by evaluation", rep)
        if g.failed:
            continue
        compare(chk, I, r, lambda: I.llk(hist), "llk=sum-over-histories", f"instance {k}")
        # the recursion used below for large sizes agrees with the enumeration
        tot = sum(dp(I.cfg(si), f, "sum") for si, f in enumerate(I.factors()))
        exp = I.llk(hist) - (
            I.M * np.log(np.diag(I.ar_matrix())).sum() if I.rho is not None else 0
        )
        if not close(tot, exp):
            from .common import MachineryError

            raise MachineryError(f"recursion {tot} != enumeration {exp} for {s}")
        if k % 3 == 0:
            with chk.guard("llk-again", rep) as g:
                r2 = float(F.llk(*a))
                if not (close(r2, r)):
                    chk.violation("repeatable", f"{r} then {r2}", rep)
            # omitting repeated designs/responses is immaterial
            I2 = Instance(s, np.random.default_rng([chk.seed, k]))
            I2.s["nones"] = not s.get("nones", False)
            with chk.guard("llk-nones", rep) as g:
                F2, a2 = I2.real()
                r2 = float(F2.llk(*a2))
            if not g.failed and not close(r2, r):
                chk.violation("omitted-designs-immaterial", f"{r} vs {r2}", rep)
        if len(s["nts"]) > 1 and k % 5 == 0 and (s.get("rho") is None or min(s["nts"]) > 1):
            # additivity: each series evaluated alone through explicit series boundaries
            tot = 0.0
            with chk.guard("llk-single-series", rep) as g:
                for si in range(I.nser):
                    F1, a1 = I.real(only=si)
                    tot += float(F1.llk(*a1))
            if not g.failed:
                compare(chk, I, tot, lambda: I.llk(hist), "series-additive", f"instance {k}")
        if k % 16 == 3 and len(s["nts"]) > 1:
            with chk.guard("llk-parallel", rep) as g:
                F3, a3 = I.real(n_cores=2)
                r3 = float(F3.llk(*a3))
            if not g.failed and not close(r3, r):
                chk.violation("worker-count-immaterial", f"1 core {r}, 2 cores {r3}", rep)
        if k < 3:
            chk.sample(dict(spec=s, llk=r))
    # large sizes
    rng = np.random.default_rng(7000 + chk.seed)
    for k in range(24 if chk.quick else 250):
        s = big_spec(rng, hmp=k % 3 == 2)
        I = Instance(s, np.random.default_rng([chk.seed, 5, k]))
        with chk.guard("llk-large", dict(spec=s)) as g:
            F, a = I.real()
            r = float(F.llk(*a))
        if g.failed:
            continue

        def orc():
            v = sum(dp(I.cfg(si), f, "sum") for si, f in enumerate(I.factors()))
            if I.rho is not None:
                v += I.M * np.log(np.diag(I.ar_matrix())).sum()
            return v

        compare(chk, I, r, orc, "llk=recursion(large)", f"large {k}")
        chk.count("large_instances")

