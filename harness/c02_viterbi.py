"""C02: decoded histories are admissible behaviours of HSMM.tla of maximal weight."""

import warnings

import numpy as np

from .common import tla_set
from .hsmm_inst import Instance, dp, histories, history_logw
from .hsmm_specs import all_specs, big_spec, configs_for

warnings.simplefilter("ignore")


def validate_traces(chk, traces, clause):
    """Recorded (states, remaining duration) sequences must be behaviours of HSMM.tla."""
    if not traces:
        return
    recs = [dict(id=i, c=c, states=[int(x) for x in st], ed=int(ed)) for i, (c, st, ed) in enumerate(traces)]
    r = chk.tlc(
        "HSMMTrace",
        defs={"Traces": tla_set(recs), "Configs": "{}"},
        init="TraceInit",
        next_="TraceNext",
        invariants=["TraceInv", "Collect"],
    )
    acc = {x["ok"] for x in r.records}
    for t in recs:
        if t["id"] not in acc:
            chk.violation(
                clause, f"decoded history is not an admissible behaviour: {t}", t
            )
        else:
            chk.ok()
    chk.count("histories_validated_by_tlc", len(recs))


def check_one(chk, I, F, a, clause, exact_max, traces, rep):
    """exact_max(si, fac) -> maximal log weight."""
    with chk.guard(clause, rep) as g:
        res = F.decode_viterbi(*a)
    if g.failed:
        return

    def judge():
        bad = None
        hs = []
        for si, fac in enumerate(I.factors()):
            ed, st = res[si][0], np.asarray(res[si][1]).astype(int)
            mx = exact_max(si, fac)
            lw = history_logw(I.cfg(si), fac, st.tolist(), int(ed))
            hs.append((I.cfg(si), st.tolist(), int(ed), mx))
            if np.isneginf(mx):
                continue  # nothing admissible has positive probability
            if not lw >= mx - 1e-8 * max(1, abs(mx)):
                bad = (si, st.tolist(), int(ed), lw, mx)
                break
        return bad, hs

    if len(res) != I.nser:
        chk.violation(clause, f"{len(res)} decoded series for {I.nser}", rep)
        return
    bad, hs = judge()
    if bad is not None and I.hits_known_signals():
        I.use_known_signals = True
        bad2, hs = judge()
        I.use_known_signals = False
        if bad2 is None:
            chk.violation(clause, str(bad), rep, finding="hmp-shared-signals")
            bad = None
    if bad is not None:
        chk.violation(
            clause,
            f"series {bad[0]}: decoded {bad[1]} (remaining {bad[2]}) has log weight {bad[3]}, "
            f"best admissible history has {bad[4]}",
            rep,
        )
        return
    chk.ok()
    for c, st, ed, mx in hs:
        if np.isfinite(mx):
            traces.append((c, st, ed))


def run(chk):
    specs = all_specs(chk, 120, 900)
    hist = histories(chk, configs_for(specs))
    traces = []
    for k, s in enumerate(specs):
        I = Instance(s, np.random.default_rng([chk.seed, k, 2]))
        rep = dict(spec=s, k=k)

        def mx(si, fac):
            lw = I.paths(hist, si).logw(*fac)
            return lw.max() if len(lw) else -np.inf

        F, a = I.real(n_cores=2 if (k % 17 == 3) else 1)
        check_one(chk, I, F, a, "maximal-admissible-history", mx, traces, rep)
        if k < 2:
            chk.sample(dict(spec=s, decoded=[[int(e), list(map(int, x))] for e, x in F.decode_viterbi(*a)]))
    rng = np.random.default_rng(7100 + chk.seed)
    for k in range(20 if chk.quick else 250):
        s = big_spec(rng, hmp=k % 3 == 2)
        I = Instance(s, np.random.default_rng([chk.seed, 52, k]))
        F, a = I.real()
        check_one(
            chk,
            I,
            F,
            a,
            "maximal-admissible-history(large)",
            lambda si, fac: dp(I.cfg(si), fac, "max"),
            traces,
            dict(spec=s),
        )
    validate_traces(chk, traces, "trace-is-behaviour")
