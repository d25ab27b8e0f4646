"""Planted bugs in the HSMM part (authored from the property statements)."""
LLKCPP = "src/mssm/src/cpp/hsmm/llk.cpp"
DEC = "src/mssm/src/cpp/hsmm/decode.cpp"
RES = "src/mssm/src/cpp/hsmm/resid.cpp"
HS = "src/mssm/src/python/hsmm.py"
BRUTE = '''
import itertools, warnings; warnings.simplefilter("ignore")
from hs.hsmm_inst import Instance, dp, history_logw
def mk(**k):
    d = dict(ns=3, D=4, swf=True, ewl=False, eil=False, M=1, obs="gau", tv=False, fix="list", nts=[4],
             hmp=False, w=0, shared=[], shared_m=False, dmix=False, nones=False, p=2)
    d.update(k)
    return d
def allhist(cfg):
    """every (states, excess) pair"""
    for st in itertools.product(range(cfg["ns"]), repeat=cfg["nt"]):
        for ed in range(cfg["D"] - 1):
            yield st, ed
def weights(I, coef=None):
    out = []
    for si, f in enumerate(I.factors(coef)):
        c = I.cfg(si)
        h = list(allhist(c))
        out.append((h, np.array([history_logw(c, f, st, ed) for st, ed in h])))
    return out
'''
LLK = BRUTE + '''
bad = 0
for k, s in enumerate(SPECS):
    I = Instance(s, np.random.default_rng(40 + k))
    F, a = I.real()
    real = float(F.llk(*a))
    tot = sum(scp.special.logsumexp(w) for _, w in weights(I))
    print(real, tot)
    bad += abs(real - tot) > 1e-7 * max(1, abs(tot))
sys.exit(1 if bad else 0)
'''
def D(specs, body):
    i = body.index("bad = 0")
    return body[:i] + "SPECS = [" + ", ".join(specs) + "]\n" + body[i:]
SEEDS = {
 "hsmm-llk-tv-later-durations": dict(
  property="C01", hs=True,
  edits=[(LLKCPP, "tp *= bs(t,j)*((tvdtpi) ? ds(d,(starts_with_first) ? j : j + n_S,t):",
                  "tp *= bs(t,j)*((tvdtpi) ? ds(d,(starts_with_first) ? j : j + n_S,t-1):", 0)],
  needs="a non-HMP model with time-varying durations in which a state is entered after the first sample",
  breaks="the duration of a state entered at sample t is weighted with the distribution of sample t-1",
  demo=D(["mk(tv=True)", "mk(tv=True, swf=False, fix='none')"], LLK)),
 "hsmm-viterbi-last-state": dict(
  property="C02", hs=True,
  edits=[(DEC, """            for (size_t d = 0; d < (D-1); d++)
            {
                if (delta(n_T-1,d,n_S-1) > tmp_d)""", """            for (size_t d = 0; d < std::min(D-1,n_T); d++)
            {
                if (delta(n_T-1,d,n_S-1) > tmp_d)""")],
  needs="ends_in_last without ends_with_last, and a series shorter than the maximum duration whose best history leaves more samples over than the series is long",
  breaks="the decoder never considers final states that extend beyond the series by its length or more",
  demo=BRUTE + '''
bad = 0
for k in range(40):
    I = Instance(mk(eil=True, D=7, nts=[1], ns=2, fix="one"), np.random.default_rng(k))
    F, a = I.real()
    (ed, st), = F.decode_viterbi(*a)
    (h, w), = weights(I)
    got = history_logw(I.cfg(0), I.factors()[0], [int(x) for x in st], int(ed))
    bad += not got >= w.max() - 1e-8
print("suboptimal", bad)
sys.exit(1 if bad else 0)
'''),
 "hsmm-viterbi-bump-width": dict(
  property="C02", hs=True,
  edits=[(DEC, """                        if (tmp_d2 > tmp_d)
                        {
                            tmp_d = tmp_d2;
                            tmp_j = i;
                        }
                    }
                    // tmp_d""", """                        if (tmp_d2 > tmp_d)
                        {
                            tmp_d = tmp_d2;
                            tmp_j = i;
                            if ((hmp_code != 0) && (j % 2 == 0) && (d + 1 == D - 1))
                            {
                                break;
                            }
                        }
                    }
                    // tmp_d""")],
  needs="an HMP-like model whose transition matrix lets a flat be reached from several bumps/flats, and a flat of maximal duration",
  breaks="the best predecessor of a flat with the longest duration is the first possible one, not the best one",
  demo=BRUTE + '''
bad = 0
for k in range(60):
    I = Instance(mk(hmp=True, obs="hmp", w=2, ns=3, nts=[6], hmp_fam="Gaussian", ltr=False, ewl=bool(k % 2)), np.random.default_rng(k))
    F, a = I.real()
    (ed, st), = F.decode_viterbi(*a)
    (h, w), = weights(I)
    got = history_logw(I.cfg(0), I.factors()[0], [int(x) for x in st], int(ed))
    bad += not got >= w.max() - 1e-8
print("suboptimal", bad)
sys.exit(1 if bad else 0)
'''),
 "hsmm-sample-leftover": dict(
  property="C03", hs=True,
  edits=[(DEC, """                else
                {
                    state_probs[i] = lam(t-1,0,i) *""", """                else if (lam(t-1,0,i) > 0 && ((tmp_ed + 1) <= (D - 2) || t < n_T - 1))
                {
                    state_probs[i] = lam(t-1,0,i) *"""),],
  needs="a sampled final state whose remaining duration is the maximum, at the last sample: stale probabilities of the previous sample are reused",
  breaks="sampled histories are not drawn from the posterior (and some are impossible) when the last segment starts at the last sample with maximal duration",
  demo=BRUTE + '''
bad = 0
n = 20000
for k in range(4):
    I = Instance(mk(D=3, nts=[3], fix="one"), np.random.default_rng(k))
    F, a = I.real()
    (eds, st), = F.sample_posterior_states(*a, n_samples=n, seed=3)
    (h, w), = weights(I)
    p = np.exp(w - scp.special.logsumexp(w))
    idx = {x: i for i, x in enumerate(h)}
    cnt = np.zeros(len(h))
    for c in range(n):
        cnt[idx[(tuple(int(x) for x in st[:, c]), int(eds[c]))]] += 1
    if cnt[p <= 0].sum() > 0: bad += 1; continue
    z = (cnt - n * p)[p > 0] / np.sqrt(n * p * (1 - p))[p > 0]
    bad += np.max(np.abs(z[(n * p)[p > 0] > 10])) > 7
print("bad", bad)
sys.exit(1 if bad else 0)
'''),
 "hsmm-predict-series-pi": dict(
  property="C15", hs=True,
  edits=[(HS, """                if isinstance(T, list) and isinstance(pi, list):
                    Ts = T[series]
                    pis = pi[series]

                else:
                    Ts = T
                    pis = pi

            np_gen""", """                if isinstance(T, list) and isinstance(pi, list):
                    Ts = T[series]
                    pis = pi[-series]

                else:
                    Ts = T
                    pis = pi

            np_gen""")],
  needs="at least three series with different fixed initial state probabilities",
  breaks="series other than the first are simulated with the initial probabilities of another series",
  demo=BRUTE + '''
I = Instance(mk(nts=[3, 3, 3, 3], fix="list"), np.random.default_rng(1))
F, a = I.real()
n = 4000
bad = 0
for si, (em, st) in enumerate(F.predict(*a, seed=1, n_samples=n)):
    f = np.bincount(st[0].astype(int), minlength=3) / n
    print(si, f, I.pifix[si])
    bad += np.max(np.abs(f - I.pifix[si])) > 0.06
sys.exit(1 if bad else 0)
'''),
}
