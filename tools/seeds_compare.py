"""Planted bugs for C17 (authored from the property statement)."""
U = "src/mssm/src/python/utils.py"
C = "src/mssm/src/python/compare.py"
D = "src/mssm/src/cpp/dchol.cpp"
PRE = '''
import sys, warnings; warnings.simplefilter("ignore")
import numpy as np, pandas as pd, scipy as scp
from mssm.models import *
from mssm.src.python.exp_fam import *
from mssm.src.python.compare import compare_CDL
from mssm.src.python import utils as U
rng = np.random.default_rng(7)
n = 150
d = pd.DataFrame({"x": rng.uniform(size=n), "z": rng.uniform(size=n)})
d["y"] = np.sin(6 * d.x) + 0.5 * (d.z - 0.5) ** 2 + 0.4 * rng.normal(size=n)
d["k"] = rng.poisson(np.exp(0.3 * np.sin(6 * d.x) + d.z)).astype(float)
def fit(y, terms, fam):
    m = GAMM(Formula(lhs(y), terms, d, print_warn=False), fam)
    m.fit(progress_bar=False)
    return m
'''
SEEDS = {
 "sampled-scale-reused": dict(
  property="C17",
  edits=[(U, "Vr1 += ws[ri] * ((Linvs[ri].T @ Linvs[ri] * scales[ri]))", "Vr1 += ws[ri] * ((Linvs[ri].T @ Linvs[ri] * scales[0]))", 0)],
  needs="a sampling-based correction (JJJ2) with several workers of a model whose scale is estimated",
  breaks="every drawn candidate contributes with the scale estimate of the first one, so the corrected covariance depends on the number of workers",
  demo=PRE + '''
e = 0
for s in range(6):
    rng = np.random.default_rng(s)
    d["y"] = 0.5 * np.sin(6 * d.x) + 0.5 * (d.z - 0.5) ** 2 + 0.4 * rng.normal(size=n)
    m = fit("y", [i(), f(["x"]), f(["z"])], Gaussian())
    a, b = (U.correct_VB(m, grid_type="JJJ2", nR=30, n_c=c, seed=3, use_importance_weights=False)[0] for c in (1, 2))
    e = max(e, np.abs(np.asarray(a) - np.asarray(b)).max() / np.abs(a).max())
print(e)
sys.exit(1 if e > 1e-6 else 0)
'''),
 "prior-weights-proposal": dict(
  property="C17",
  edits=[(U, "            logq = q.logpdf(np.log(rGrid))\n\n            ws =", "            logq = q.logpdf(rGrid)\n\n            ws =", 0)],
  needs="a sampling-based correction with a prior on the log smoothing parameters",
  breaks="importance weights divide by the proposal density at the smoothing parameters instead of their logarithms",
  demo=PRE + '''
m = fit("k", [i(), f(["x"]), f(["z"])], Poisson())
pr = U.MVUniformRhoPrior(-30.0, 30.0)
seen = []
T = scp.stats.multivariate_t
o = T.rvs
def rvs(*a, **k):
    r = o(*a, **k); seen.append(np.array(r)); return r
T.rvs = rvs
res = U.correct_VB(m, grid_type="JJJ2", nR=25, n_c=1, seed=3, prior=pr)
del T.rvs
V, Vp, Vpr = np.asarray(res[0]), res[2], res[3]
lam0 = np.array([p.lam for p in m.overall_penalties])
lam = np.exp(seen[-1].reshape(-1, 2))
if not np.any(np.abs(lam - lam0).max(axis=1) < 0.1 * np.sqrt(np.diag(Vpr)).min()):
    lam = np.concatenate([lam0[None], lam])
import copy
re, Vs = [], []
for l in lam:
    P = copy.deepcopy(m.overall_penalties)
    for p, v in zip(P, l): p.lam = v
    z = U.compute_reml_candidate_GAMM(m.family, m.get_ys(), m.get_mmat(), P, 1, m.offset, compute_inv=True)
    re.append(z[0]); Vs.append((z[1].T @ z[1]).toarray())
q = T(loc=np.log(lam0), shape=Vpr, df=40, allow_singular=True).logpdf(np.log(lam))
w = scp.special.softmax(np.array(re) + pr.logpdf(np.log(lam)) - q)
J = np.stack([-p.lam * np.ravel((m.lvi.T @ (m.lvi @ (p.S_J_emb @ m.coef)))) for p in m.overall_penalties], 1)
E = sum(a * b for a, b in zip(w, Vs))
if np.trace(E @ -m.hessian.toarray()) < m.edf:
    E = (m.lvi.T @ m.lvi).toarray()
e = np.abs(E + J @ Vp @ J.T - V).max() / np.abs(V).max()
print(e)
sys.exit(1 if e > 1e-5 else 0)
'''),
 "covariance-root-cross-terms": dict(
  property="C17",
  edits=[(D, "for (size_t k = 0; k < npen; k++)", "for (size_t k = 0; k <= l; k++)", 0)],
  needs="the analytic correction of a model with several correlated smoothing parameters",
  breaks="the contribution of the change of the covariance root counts each pair of smoothing parameters once instead of twice",
  demo=PRE + '''
d["y"] = np.sin(6 * d.x) * np.cos(5 * d.z) + 0.2 * rng.normal(size=n)
m = fit("y", [i(), f(["x", "z"], te=True, nk=5)], Gaussian())
V, _, Vp, Vpr = U.correct_VB(m, grid_type="JJJ1", n_c=1)[:4]
lam = np.array([p.lam for p in m.overall_penalties])
S = [p.S_J_emb.toarray() for p in m.overall_penalties]
phi = m.scale
H = -m.hessian.toarray()
def root(r):
    A = H + sum(np.exp(a) * s for a, s in zip(r, S)) / phi
    return np.linalg.inv(np.linalg.cholesky(A).T)
r0, h, k = np.log(lam), 1e-3, len(lam)
Dr = [(root(r0 + h * e) - root(r0 - h * e)) / (2 * h) for e in np.eye(k)]
V0 = root(r0) @ root(r0).T
J = np.stack([-V0 @ (l * s @ m.coef.ravel()) / phi for l, s in zip(lam, S)], 1)
W = V0 + J @ Vp @ J.T + sum(Vpr[i, j] * Dr[i] @ Dr[j].T for i in range(k) for j in range(k))
e = np.abs(W - np.asarray(V)).max() / np.abs(W).max()
print(e)
sys.exit(1 if e > 1e-5 else 0)
'''),
 "glrt-residual-dof": dict(
  property="C17",
  edits=[(C, "rs_df = X.shape[0] - max(DOF1, DOF2)", "rs_df = X.shape[0] - DOF1", 0)],
  needs="a test between Gaussian models in which the model with more coefficients uses fewer degrees of freedom",
  breaks="the F test takes its residual degrees of freedom from the first model instead of the larger one",
  demo=PRE + '''
rng = np.random.default_rng(1)
d["y2"] = 0.5 * d.x + 0.12 * np.sin(14 * d.z) + 0.3 * rng.normal(size=n)
a = fit("y2", [i(), f(["x"], nk=20)], Gaussian())
b = fit("y2", [i(), f(["z"], nk=12)], Gaussian())
assert a.edf < b.edf and len(a.coef) > len(b.coef)
r = compare_CDL(a, b, correct_V=False, correct_t1=False, perform_GLRT=True)
if np.isnan(r["p"]):
    sys.exit("no test")
df = abs(r["Res. DOF"])
p = scp.stats.f.sf(abs(r["test_stat"]) / df, df, n - max(r["DOF1"], r["DOF2"]))
print(r["p"], p)
sys.exit(1 if abs(r["p"] - p) > 1e-12 + 1e-6 * p else 0)
'''),
}
