"""Planted bugs outside decoding/likelihood of the HSMM part (authored from the property statements)."""
import os, runpy
_h = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_hsmm.py"))
BRUTE, RES, HS = _h["BRUTE"], _h["RES"], _h["HS"]
P = "src/mssm/src/python/"
MODELS = "src/mssm/models.py"
HAZ = "src/mssm/src/cpp/hazard.cpp"
PRE = '''
import warnings; warnings.simplefilter("ignore")
from mssm.models import *
from mssm.src.python.formula import build_penalties
rng = np.random.default_rng(7)
'''
SEEDS = {
 "hsmm-grad-duration-time": dict(
  property="C04", hs=True,
  edits=[("src/mssm/src/cpp/hsmm/llk.cpp", "psi(t1,d,j,tci) += tp*bs(t,j)*((tvdtpi) ? d_grad(d,ci,t):", "psi(t1,d,j,tci) += tp*bs(t,j)*((tvdtpi) ? d_grad(d,ci,t-1):", 0)],
  needs="a non-event model with known transition probabilities and time-varying duration distributions",
  breaks="gradient of duration coefficients uses the derivative of the sample before the state was entered",
  demo=BRUTE + '''
bad = 0
for k in range(4):
    I = Instance(mk(tv=True, fix="list", nts=[4, 3]), np.random.default_rng(60 + k))
    F, (c, sp, ys, Xs) = I.real()
    g = np.asarray(F.gradient(c, sp, ys, Xs)).flatten()
    h = 1e-5
    for i in range(len(g)):
        p = c.copy(); q = c.copy(); p[i] += h; q[i] -= h
        n = (float(F.llk(p, sp, ys, Xs)) - float(F.llk(q, sp, ys, Xs))) / (2 * h)
        bad += abs(n - g[i]) > 1e-3 * max(1, abs(n))
print(bad)
sys.exit(1 if bad else 0)
'''),
 "hsmm-fwdresid-transition-time": dict(
  property="C05", hs=True,
  edits=[(RES, "tp += lam(t-1,0,i)*((tvdtpi) ? T(i,j,t-1): T(i,j));", "tp += lam(t-1,0,i)*((tvdtpi) ? T(i,j,t): T(i,j));", 0)],
  needs="forward residuals of a model with at least three states whose transition probabilities vary over time",
  breaks="the predictive distribution mixes states with the transition probabilities of the wrong time-point",
  demo=BRUTE + '''
bad = 0
for k in range(6):
    I = Instance(mk(tv=True, fix="list", nts=[5], D=4), np.random.default_rng(80 + k))
    F, a = I.real()
    u = np.asarray(F.get_resid(*a, resid_type="forward", transform_to_normal=False)).reshape(-1, I.M)
    (lpi, lT, ld, lb, mean, lcdf), = I.factors(cdf=True)
    for t in range(5):
        c = I.cfg(0, nt=t + 1)
        n = lb.copy(); n[t] = lcdf[t, :, :, 0]
        o = lb.copy(); o[t] = 0
        e = np.exp(dp(c, (lpi, lT, ld, n), "sum") - dp(c, (lpi, lT, ld, o), "sum"))
        bad += abs(e - u[t, 0]) > 1e-8
print(bad)
sys.exit(1 if bad else 0)
'''),
 "terms-interaction-column-order": dict(
  property="C06",
  edits=[(P + "terms.py", """                    for old_inter, old_idx in zip(interactions, inter_idx):
                        for fl in range(fl_start, len(factor_levels[var])):
                            new_interactions.append(old_inter)""",
   """                    for fl in range(fl_start, len(factor_levels[var])):
                        for old_inter, old_idx in zip(interactions, inter_idx):
                            new_interactions.append(old_inter)""")],
  needs="an interaction of two factors that both contribute at least two levels",
  breaks="interaction columns come in another order than the coefficient names",
  demo=PRE + '''
n = 60
d = pd.DataFrame({"y": rng.normal(size=n), "a": rng.choice(["p", "q", "r"], n), "b": rng.choice(["u", "v", "w"], n)})
F = Formula(lhs("y"), [i(), l(["a", "b"])], data=d)
m = GAMM(F, Gaussian())
m.fit(progress_bar=False)
X = m.get_mmat().toarray()
bad = 0
for k, nm in enumerate(F.coef_names):
    if nm == "Intercept":
        continue
    want = [(x, z) for x in "pqr" for z in "uvw" if "a_" + x in nm and "b_" + z in nm]
    print(nm, want)
    got = sorted(set(zip(d.a[X[:, k] != 0], d.b[X[:, k] != 0])))
    bad += len(want) == 1 and got != want
sys.exit(1 if bad else 0)
'''),
 "penalties-shared-rank": dict(
  property="C07",
  edits=[(P + "penalties.py", "rank=np.sum([pen.rank for pen in m_pens]),", "rank=m_pens[0].rank * len(m_pens),")],
  needs="terms of different basis size that share one smoothing parameter",
  breaks="recorded rank of the shared penalty is a multiple of the first rank instead of the sum",
  demo=PRE + '''
n = 200
d = pd.DataFrame({"y": rng.normal(size=n), "x": rng.uniform(size=n), "z": rng.uniform(size=n)})
m = GAMM(Formula(lhs("y"), [i(), f(["x"], nk=5, id=1), f(["z"], nk=9, id=1)], data=d), Gaussian())
m.fit(progress_bar=False, max_outer=2)
p, = m.overall_penalties
r = np.linalg.matrix_rank(p.S_J_emb.toarray(), tol=1e-7)
print(p.rank, r)
sys.exit(0 if p.rank == r else 1)
'''),
 "formula-codebook-decoding": dict(
  property="C08",
  edits=[(P + "formula.py", "self.coding_factors[var][codebook[var][c]] = c", "self.coding_factors[var][ci] = c")],
  needs="a user supplied coding that does not follow the sorted order of the levels",
  breaks="codes decode to another level than the one they were made from",
  demo=PRE + '''
d = pd.DataFrame({"y": rng.normal(size=30), "g": rng.choice(["a", "b", "c"], 30)})
F = Formula(lhs("y"), [i(), l(["g"])], data=d, codebook={"g": {"a": 2, "b": 0, "c": 1}})
bad = [lv for lv, c in F.get_factor_codings()["g"].items() if F.get_coding_factors()["g"][c] != lv]
print(bad)
sys.exit(1 if bad else 0)
'''),
 "predict-whole-interval-par": dict(
  property="C09",
  edits=[(P + "utils.py", "post = model.sample_post(n_ps, use_post, deviations=True, seed=seed, par=par)",
          "post = model.sample_post(n_ps, use_post, deviations=True, seed=seed)")],
  needs="whole-interval bounds with chosen terms for the second or a later parameter of a multi-parameter model",
  breaks="the interval is widened with posterior deviations of the first parameter's coefficients",
  demo=PRE + '''
n = 400
x = rng.uniform(size=n); z = rng.uniform(size=n)
d = pd.DataFrame({"y": np.sin(6 * x) + rng.normal(size=n) * np.exp(-1 + z), "x": x, "z": z})
m = GAMMLSS([Formula(lhs("y"), [i(), f(["x"])], data=d), Formula(lhs("y"), [i(), f(["z"])], data=d)], GAUMLSS([Identity(), LOG()]))
m.fit(progress_bar=False)
nd = d.iloc[:25]
_, X, b = m.predict([1], nd, ci=True, par=1)
_, _, bw = m.predict([1], nd, ci=True, par=1, whole_interval=True, n_ps=4000, seed=3)
V = (m.lvi.T @ m.lvi).toarray()
k = len(m.formulas[0].coef_names) if m.formulas[0].coef_names else m.formulas[0].n_coef
V = V[k:, k:]
X = X.toarray()
S = np.abs(X @ rng.multivariate_normal(np.zeros(len(V)), V, 40000).T) / b[:, None]
q = np.quantile(S.max(axis=0), .95)
print((bw / b)[0], q)
sys.exit(0 if np.allclose(bw / b, q, rtol=.05) else 1)
'''),
 "cox-hessian-eventless-times": dict(
  property="C11",
  edits=[(HAZ, """            // Adjust gamma_p
            gamma_p += gamma(rij.array()).array().sum();

            // Now gradient computations
            bp += (gamma(rij.array()).transpose() * X(rij.array(),Eigen::all)).transpose();

            grad2 -= (dj * (bp / gamma_p));""", """            // No contribution without events
            if (dj == 0)
                continue;

            // Adjust gamma_p
            gamma_p += gamma(rij.array()).array().sum();

            // Now gradient computations
            bp += (gamma(rij.array()).transpose() * X(rij.array(),Eigen::all)).transpose();

            grad2 -= (dj * (bp / gamma_p));""")],
  needs="a time point at which only censored observations end",
  breaks="subjects censored at a time without events are missing from all earlier risk sets in the gradient",
  demo=PRE + '''
t = np.array([5, 4, 4, 3, 2, 2, 1]); de = np.array([1, 0, 0, 1, 1, 0, 1]).reshape(-1, 1)
ut = np.unique(t)[::-1]; r = np.array([np.where(ut == v)[0][0] for v in t])
fam = PropHaz(ut, r)
X = scp.sparse.csc_array(rng.normal(size=(7, 2)))
c = np.array([[.3], [-.4]]); h = 1e-5
g = fam.gradient(c, [], [de], [X]).flatten()
n = [(fam.llk(c + h * e, [], [de], [X]) - fam.llk(c - h * e, [], [de], [X])) / (2 * h) for e in np.eye(2)[:, :, None]]
print(g, n)
sys.exit(0 if np.allclose(g, n, atol=1e-6) else 1)
'''),
 "ar1-working-residuals": dict(
  property="C12",
  edits=[(P + "gamm_solvers.py", "            wres = Lrhoiv.T @ (", "            wres = Lrhoiv @ (")],
  needs="a residual auto-correlation parameter in a model that is not Gaussian with identity link",
  breaks="working residuals are decorrelated with the following instead of the previous row of the series",
  demo=PRE + '''
n = 120
d = pd.DataFrame({"x": rng.uniform(size=n), "s": np.repeat(["a", "b", "c"], 40)})
d["y"] = rng.gamma(2, np.exp(d.x) / 2)
m = GAMM(Formula(lhs("y"), [i(), l(["x"])], data=d, series_id="s", print_warn=False), Gamma())
m.fit(rho=.5, progress_bar=False)
w = np.asarray(m.get_resid()).flatten(); a = np.asarray(m.get_resid("ar1")).flatten()
e = w.copy(); k = 1 / np.sqrt(1 - .25)
mu = m.mus[0].flatten(); p = (d.y.values - mu) / mu
e = p.copy()
for j in range(n):
    if j % 40:
        e[j] = k * (p[j] - .5 * p[j - 1])
print(np.abs(a - e).max())
sys.exit(0 if np.allclose(a, e, atol=1e-3 * np.abs(e).max()) else 1)
'''),
 "invgauss-variance-derivative": dict(
  property="C13",
  edits=[(P + "exp_fam.py", "        return 3 * np.power(mu, 2)", "        return 3 * mu")],
  needs="an inverse Gaussian model with means away from one",
  breaks="the observed curvature reported after the fit is not the second derivative of the log-likelihood",
  demo=PRE + '''
n = 300
d = pd.DataFrame({"x": rng.uniform(size=n)})
mu = np.exp(1 + d.x); d["y"] = scp.stats.invgauss.rvs(mu=mu * .1, scale=10, size=n, random_state=3)
m = GAMM(Formula(lhs("y"), [i(), l(["x"])], data=d), InvGauss())
m.fit(progress_bar=False)
X = m.get_mmat(); y = d.y.values.reshape(-1, 1); c = m.coef.reshape(-1, 1)
ll = lambda b: float(m.family.llk(y, np.exp(X @ b), m.scale))
h = 1e-4; H = np.zeros((2, 2)); E = np.eye(2)[:, :, None] * h
for a in range(2):
    for b in range(2):
        H[a, b] = (ll(c + E[a] + E[b]) - ll(c + E[a] - E[b]) - ll(c - E[a] + E[b]) + ll(c - E[a] - E[b])) / (4 * h * h)
print(H, m.hessian_obs.toarray())
sys.exit(0 if np.allclose(H, m.hessian_obs.toarray(), rtol=1e-2) else 1)
'''),
 "fit-offset-survives-restart": dict(
  property="C16",
  edits=[(MODELS, """        self.offset = 0

""", """        if not restart:
            self.offset = 0

""")],
  needs="a fit with an offset followed by a fit with restart=True and no offset, family other than Gaussian with identity link",
  breaks="the offset of the earlier fit is used again",
  demo=PRE + '''
n = 200
d = pd.DataFrame({"x": rng.uniform(size=n)})
d["y"] = rng.poisson(np.exp(1 + np.sin(6 * d.x)))
def new():
    return GAMM(Formula(lhs("y"), [i(), f(["x"])], data=d), Poisson())
a = new(); a.fit(offset=np.full((n, 1), .7), progress_bar=False); a.fit(restart=True, progress_bar=False)
b = new(); b.fit(progress_bar=False)
print(a.coef[0], b.coef[0])
sys.exit(0 if np.allclose(a.coef[0], b.coef[0], atol=.01) else 1)
'''),
 "files-count-missing-rows": dict(
  property="C10",
  edits=[(P + "gamm_solvers.py", "    return XX, Xy, len(y_flat_file)\n", "    return XX, Xy, len(NAs_flat_file)\n", 0)],
  needs="a model fitted from files without keeping covariates in memory, with missing values in a file",
  breaks="rows with missing values count as observations, so scale and confidence are off",
  demo=PRE + """
import tempfile
n = 160
d = pd.DataFrame({"x": rng.uniform(size=n), "y": rng.normal(size=n)}); d["y"] += np.sin(6 * d.x)
d.loc[::4, "y"] = np.nan
with tempfile.TemporaryDirectory() as t:
    fs = []
    for k in range(2):
        fs.append(t + f"/p{k}.csv"); d.iloc[k * 80:(k + 1) * 80].to_csv(fs[-1], index=False)
    a = GAMM(Formula(lhs("y"), [i(), f(["x"], rp=0)], data=None, file_paths=fs, print_warn=False), Gaussian())
    a.fit(progress_bar=False)
b = GAMM(Formula(lhs("y"), [i(), f(["x"], rp=0)], data=d, print_warn=False), Gaussian())
b.fit(progress_bar=False)
print(a.scale, b.scale)
sys.exit(0 if np.isclose(a.scale, b.scale, rtol=1e-2) else 1)
"""),
 "binomial-deviance-trials": dict(
  property="C14",
  edits=[(P + "exp_fam.py", "return 2 * (k * (ratio1) + ((self.n - k) * ratio2))", "return 2 * (k * (ratio1) + ((1 - y) * ratio2))")],
  needs="a Binomial family with more than one trial",
  breaks="the deviance counts a single failure trial per observation",
  demo=PRE + """
y = np.array([[.25], [.5], [.75], [0], [1]]); mu = np.array([[.3], [.6], [.5], [.2], [.8]])
F = Binomial(n=4)
e = 2 * (F.lp(y, y) - F.lp(y, mu)); e1 = F.D(y, mu)
print(e.flatten(), e1.flatten())
sys.exit(0 if np.allclose(e, e1) else 1)
"""),
 "scat-shape-curvature": dict(
  property="C14",
  edits=[(P + "exp_fam.py", "+ 0.5 * np.power((nu - self.min_df) / nu, 2)\n", "+ 0.5 * np.power((nu - self.min_df) / nu, 3)\n")],
  needs="the second derivative of a scaled t log-likelihood with respect to its shape parameter, at few degrees of freedom",
  breaks="curvature with respect to the shape parameter does not belong to the log-likelihood",
  demo=PRE + """
F = ScaledT(); y = rng.normal(size=(40, 1)); mu = np.zeros((40, 1)); th = np.array([[.2], [1.1]])
H = F.hessianLTheta(y, mu, th); h = 1e-5; bad = 0
for k in range(2):
    e = np.zeros((2, 1)); e[k] = h
    n = (F.gradientLTheta(y, mu, th + e) - F.gradientLTheta(y, mu, th - e)) / (2 * h)
    bad = max(bad, np.abs(n[:, 0] - H[:, k]).max())
print(bad)
sys.exit(0 if bad < 1e-4 else 1)
"""),
}
