"""Planted bugs for C18 and C19 (authored from the property statements)."""
U = "src/mssm/src/python/utils.py"
M = "src/mssm/src/python/mcmc.py"
PRE = '''
import sys, io, re, contextlib, warnings; warnings.simplefilter("ignore")
from mssm.models import *
from mssm.src.python.exp_fam import *
from mssm.src.python import mcmc as M, utils as U
import mcmc as ext
rng = np.random.default_rng(7)
n = 240
d = pd.DataFrame({"x": rng.uniform(size=n), "z": rng.uniform(size=n), "g": np.array(list("abc"))[np.arange(n) % 3]})
d["y"] = np.sin(6 * d.x) + 0.5 * (d.z - 0.5) ** 2 + np.where(d.g == "a", 1.0, 0.2) * np.cos(5 * d.z) + 0.4 * rng.normal(size=n)
NAMES = "seed m Madapt steps cL state r c nz d p i eps epsbar Hbar mu delta kappa gamma t0 max_j llk grad draw".split()
'''
SEEDS = {
 "mcmc-shared-penalty-determinant": dict(
  property="C18",
  edits=[(M, "ldetSI = (2 * np.log((L @ P).diagonal()).sum()) * Sj_reps[SJ_term_idx[Si][0]].rep_sj",
          "ldetSI = 2 * np.log((L @ P).diagonal()).sum()")],
  needs="sampling smoothing parameters of a model with a penalty shared by several levels (factor smooth)",
  breaks="the log joint density counts the normalising constant of a shared prior once instead of once per level, and no longer belongs to its gradient",
  demo=PRE + '''
m = GAMM(Formula(lhs("y"), [i(), f(["x"]), fs(["z"], rf="g")], d, print_warn=False), Gaussian())
m.fit(progress_bar=False)
got = {}
class Stop(Exception): pass
def advance(*a):
    got.update(zip(NAMES, a)); raise Stop
ext.advance_chain, ext.find_reasonable_epsilon = advance, lambda *a: 0.1
try:
    M.sample_mssm(m, sample_rho=True, parallelize_chains=False, progress_bar=False, n_chains=1)
except Stop:
    pass
w = np.array(got["state"], float).reshape(-1, 1)
g = np.ravel(got["grad"](w))
e = 0
for j in range(w.size - len(m.overall_penalties), w.size):
    h = np.zeros_like(w); h[j] = 1e-3
    e = max(e, abs((got["llk"](w + h) - got["llk"](w - h)) / 2e-3 - g[j]))
print(e)
sys.exit(1 if e > 1e-2 else 0)
'''),
 "mcmc-converged-rho-window": dict(
  property="C18",
  edits=[(M, """                        lam_samples = lam_samples[
                            :,
                            ((iter - M_adapt) // 2) : (iter - M_adapt),  # noqa: E203
                            :,
                        ]""", """                        lam_samples = lam_samples[
                            :,
                            : (iter - M_adapt) // 2,
                            :,
                        ]""")],
  needs="a run that samples smoothing parameters and stops because the chains converged",
  breaks="the returned smoothing parameters are those of earlier transitions than the returned coefficients",
  demo=PRE + '''
m = GAMM(Formula(lhs("y"), [i(), f(["x"])], d, print_warn=False), Gaussian())
m.fit(progress_bar=False)
def advance(*a):
    a = dict(zip(NAMES, a))
    its = np.arange(a["m"] + 1, a["m"] + a["steps"] + 1, dtype=float)
    return its, np.tile(its, (np.size(a["state"]), 1)), a["eps"], a["epsbar"], a["Hbar"]
ext.advance_chain, ext.find_reasonable_epsilon = advance, lambda *a: 0.1
M.check_convergence = lambda *a, **k: (np.full(4, 1e9), np.full(4, 1.0), np.full(4, 0.1))
r = M.sample_mssm(m, n_iter=100, n_steps=5, min_iter=10, M_adapt=10, n_chains=2, parallelize_chains=False, auto_converge=True, sample_rho=True, progress_bar=False)
a, b = r.coefs[:, :, 0], r.rhos[:, :, 0]
print(a.shape, b.shape, a[0], b[0])
sys.exit(0 if a.shape == b.shape and np.array_equal(a, b) else 1)
'''),
 "terms-edf1-shared-levels": dict(
  property="C19",
  edits=[(U, "                S_len = pen.rep_sj * pen.S_J.shape[1]\n                S_end = pen.start_index + S_len\n\n                # Now compute sum of diagonal",
          "                S_len = pen.S_J.shape[1]\n                S_end = pen.start_index + S_len\n\n                # Now compute sum of diagonal")],
  needs="bias-corrected degrees of freedom of a model with a penalty shared by the levels of a factor (by and id)",
  breaks="the bias-corrected degrees of freedom of a term count the first level only",
  demo=PRE + '''
m = GAMM(Formula(lhs("y"), [i(), l(["g"]), f(["z"], by="g", id=1)], d, print_warn=False), Gaussian())
m.fit(progress_bar=False)
from mssm.src.python.utils import compute_bias_corrected_edf
compute_bias_corrected_edf(m, overwrite=True)
X = m.get_mmat().toarray()
lvi = m.lvi.toarray()
F = lvi.T @ lvi @ (X.T @ X)
w = 2 * np.diag(F) - np.diag(F @ F)
want = w[3:].sum()
print(m.term_edf1, want)
sys.exit(0 if abs(sum(m.term_edf1) - want) < 1e-4 * want else 1)
'''),
 "terms-summary-second-parameter": dict(
  property="C19",
  edits=[(U, """                    if pen.dist_param == par:
                        term_edf.append(model.term_edf[prev_edf_idx])

                    # Keep track of start idx (coef idx) and edf idx.
                    prev_start_idx = pen.start_index
                    prev_edf_idx += 1
""", """                    if pen.dist_param == par:
                        term_edf.append(model.term_edf[prev_edf_idx])
                        prev_edf_idx += 1

                    # Keep track of start idx (coef idx) and edf idx.
                    prev_start_idx = pen.start_index
""")],
  needs="summary of the smooth terms of the second (or a later) parameter of a model with smooth terms of the first one",
  breaks="the summary of a later parameter shows the degrees of freedom of terms of the first one",
  demo=PRE + '''
d["y"] = np.sin(6 * d.x) + np.exp(-1.5 + d.z) * rng.normal(size=n)
m = GAMMLSS([Formula(lhs("y"), [i(), f(["x"])], d, print_warn=False), Formula(lhs("y"), [i(), f(["z"])], d, print_warn=False)],
            GAUMLSS([Identity(), LOGb(-0.001)]))
m.fit(progress_bar=False)
o = io.StringIO()
with contextlib.redirect_stdout(o):
    U.print_smooth_terms(m, par=1)
v = [float(x) for x in re.findall(r"edf: ([0-9.]+)", o.getvalue())]
print(v, m.term_edf, o.getvalue())
sys.exit(0 if len(v) == 1 and abs(v[0] - m.term_edf[1]) < 0.01 and abs(m.term_edf[0] - m.term_edf[1]) > 0.1 else 1)
'''),
}
