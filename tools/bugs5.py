"""fifth series: thresholds on values, sizes and parameters, objects handed
back to where they came from"""
from bugs4 import HEAD
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs,
                     breaks=breaks, demo=HEAD + demo))


C = "estimation/covariance.py"
bug("G01", "C33", "online/estimation.py", [
    ("        if init is not None:\n",
     "        if init is not None and init is not self.estimate_:\n"),
], "a fit that is given the current estimate as its start",
    "the schedule of the earlier fit goes on", '''
from robuststats.online.estimation import \\
    StochasticGradientCovarianceEstimator as E
from robuststats.models.manifolds import HermitianPositiveDefinite as M
X = cn(3, 2)
g = lambda x, e: x.T@x.conj() - e
a = E(M(2), g, .1).fit(X, init=np.eye(2, dtype=complex))
e = a.estimate_.copy()
a.fit(X, init=a.estimate_)
b = E(M(2), g, .1).fit(X, init=e)
ok(a.estimate_, b.estimate_)
''')

bug("G02", "C34", "utils/montecarlo.py", [
    ("    np.random.seed(seed)\n", "    if seed:\n        np.random.seed(seed)\n"),
], "the seed zero", "the stream is not the seeded one", '''
from robuststats.utils.montecarlo import temp_seed
np.random.seed(5)
with temp_seed(0):
    a = np.random.rand()
np.random.seed(0)
ok(a, np.random.rand())
''')

B = "estimation/base.py"
bug("G03", "C10", B, [
    ("                self._array[i] = np.array(d)\n",
     "                self._array[i] = np.array(d) if d.base is None else d\n"),
], "a first batch that is a part of a larger array, changed afterwards",
    "the items change with the caller's array", '''
from robuststats.estimation.base import _FeatureArray as F
buf = rng.randn(6, 2)
f = F((2,))
x = buf[2:4].copy()
f.append(buf[2:4])
buf[...] = 0
ok(f.export(), x)
''')

P = "models/probability.py"
bug("G04", "C19", P, [
    ("""        x, loc, shape = _check_parameters_array_complex_normal(
            x, loc, shape)
        return np.real(super(complex_multivariate_t_gen,
                             self).logpdf(x, loc, shape, df))
""", """        x, loc, shape = _check_parameters_array_complex_normal(
            x, loc, shape)
        if df > 300:
            # indistinguishable from the normal one
            return np.real(multivariate_normal_gen().logpdf(
                x, loc, shape))
        return np.real(super(complex_multivariate_t_gen,
                             self).logpdf(x, loc, shape, df))
"""),
], "many degrees of freedom", "the density is the normal one", '''
from robuststats.models.probability import complex_multivariate_t as t
from scipy.stats import multivariate_t
from robuststats.models.mappings import arraytoreal, covariancetoreal
x, S = 9*cn(3), hpd(3)
ok(t.logpdf(x, np.zeros(3, complex), S, 400), multivariate_t.logpdf(
    arraytoreal(x), np.zeros(6), covariancetoreal(S), 400))
''')

S = "estimation/structured.py"
bug("G05", "C12", S, [
    ("            M_denominator = np.trace(i_A@M_numerator[:, :, i])\n"
     "            M += a/n_samples *",
     "            M_denominator = np.trace(i_A@M_numerator[:, :, i])\n"
     "            M_denominator = np.maximum(np.real(M_denominator), 1e-10)\n"
     "            M += a/n_samples *"),
], "a sample that is tiny", "tiny samples lose their weight", '''
from robuststats.estimation.structured import estimation_cov_kronecker_MM as f
X = cn(9, 4)
Y = X.copy(); Y[0] *= 1e-7
ok(f(X, 2, 2, iter_max=1, tol=-1)[0], f(Y, 2, 2, iter_max=1, tol=-1)[0], 1e-4)
''')

bug("G07", "C12", S, [
    ("""        delta = max(delta_A, delta_B)
""", """        delta = max(delta_A, delta_B)
        if iteration > 20:
            # the scale of B is free
            B = B / np.real(np.trace(B)) * b
"""),
], "more than twenty steps", "late iterates of B are rescaled", '''
from robuststats.estimation.structured import estimation_cov_kronecker_MM as f
X = cn(30, 4)
A, B, _, _ = f(X, 2, 2, iter_max=40, tol=-1)
A1, B1, _, _ = f(X, 2, 2, iter_max=20, tol=-1)
ok(np.trace(B), np.trace(B1), 1e-3)
''')

bug("G08", "C06", C, [
    ("        return np.real(la.det(covariance))**(1/covariance.shape[0])\n",
     "        p = covariance.shape[0]\n"
     "        if p > 20:\n"
     "            return np.exp(np.mean(np.log(np.real(np.diag(\n"
     "                la.cholesky(covariance))))))\n"
     "        return np.real(la.det(covariance))**(1/p)\n"),
], "determinant normalisation in more than twenty dimensions",
    "the determinant is not one", '''
from robuststats.estimation.covariance import tyler_shape_matrix_fixedpoint as f
S = f(rng.randn(99, 22), normalisation="determinant")[0]
ok(np.linalg.det(S), 1)
''')

bug("G09", "C17", "models/mappings.py", [
    ("    return np.allclose(a, np.conj(a.T), rtol=rtol, atol=atol)\n",
     "    return np.allclose(np.triu(a), np.triu(np.conj(a.T)), rtol=rtol,\n"
     "                       atol=atol)\n"),
], "a pair of entries at the edge of the relative tolerance, the larger one "
    "below the diagonal", "the tolerance is relative to one of them only", '''
from robuststats.models.mappings import check_Hermitian as f
a = np.array([[1, 1], [1.5, 1]]) + 0j
assert not f(a, rtol=.4, atol=0) and not f(a.T, rtol=.4, atol=0)
''')

bug("G10", "C15", "models/mappings.py", [
    ("            return np.vstack(a[:, :p] + 1j*a[:, p:])\n",
     "            return np.atleast_2d(np.squeeze(a[:, :p] + 1j*a[:, p:]))\n"),
], "one complex feature and several samples", "the column becomes a row", '''
from robuststats.models.mappings import arraytocomplex as f, arraytoreal as g
X = cn(4, 1)
assert f(g(X)).shape == (4, 1)
''')

bug("G11", "C09", B, [
    ("""            for i, cov in enumerate(cov_list):
                covmats[i, :, :] = cov
""", """            for i, cov in enumerate(cov_list):
                covmats[i, :, :] = .5*(cov + cov.T) \\
                    if np.isrealobj(X) else cov
"""),
    ("        covmats = np.zeros((n_trials, n_features, n_features), dtype=dtype)\n",
     "        covmats = np.zeros((n_trials, n_features, n_features), dtype=dtype)\n"
     "        if n_trials > 64 and self.n_jobs != 1:\n"
     "            X = X[:64 * (n_trials // 64)]\n"),
], "more than 64 trials in parallel", "the last trials stay zero", '''
from robuststats.estimation.base import CovariancesEstimation as E, \\
    RealEmpiricalCovariance as R
X = rng.randn(70, 5, 2)
ok(E(R(), n_jobs=2).transform(X), E(R()).transform(X))
''')

bug("G12", "C11", B, [
    ("                    condition_sym = (np.abs(a - a_H) < self._tol).all()\n",
     "                    condition_sym = (np.abs(a - a_H) < self._tol *\n"
     "                                     np.abs(a).max()).all()\n"),
], "large items with a small asymmetry", "the lower triangle is lost", '''
from robuststats.estimation.base import _FeatureArray as F
f = F((2, 2))
f.append(np.array([[[1e6, 1.], [1.5, 1e6]]]))
assert f.vectorize().shape == (1, 4)
''')

bug("G13", "C31", "utils/linalg.py", [
    ("    return toeplitz(np.power(rho, np.arange(0, p))).astype(dtype)\n",
     "    return toeplitz(np.power(dtype(rho), np.arange(0, p)))\n"),
], "a data type other than complex or float",
    "the coefficient is rounded before the powers are taken", '''
from robuststats.utils.linalg import ToeplitzMatrix as T
ok(T(1.5, 3, int), np.array([[1, 1, 2], [1, 1, 1], [2, 1, 1]]))
''')

bug("G14", "C05", C, [
    ("""        tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
        temp = X.T * np.sqrt(tau)
        sigma_new = (1/N) * temp@temp.T

        # condition for stopping
""", """        tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
        temp = X.T * np.sqrt(tau)
        sigma_new = (1/N) * temp@temp.T
        if la.norm(sigma_new - sigma) / la.norm(sigma) > 2*delta:
            # diverges
            break

        # condition for stopping
"""),
], "a real Huber run whose relative change grows",
    "the iteration stops early", '''
from robuststats.estimation.covariance import huber_m_estimator_fixed_point \\
    as f
for s in range(400):
    X = rng.randn(4, 2)
    X[0] *= 10**rng.uniform(-3, 3)
    S0 = np.diag([10**rng.uniform(-4, 4), 10**rng.uniform(-4, 4)])
    S, d, k = f(X, .3 + .6*rng.rand(), init=S0, tol=1e-9, iter_max=6)
    assert d <= 1e-9 or k == 6, (d, k)
''')

bug("G15", "C07", B, [
    ("    if X.shape[0] == 1:\n", "    if X.shape[0] == 1:\n"
     "        assume_centered = True\n"),
], "a single sample, not assumed centred",
    "the covariance of one sample is not zero", '''
from robuststats.estimation.base import complex_empirical_covariance as f
ok(f(cn(1, 3)), np.zeros((3, 3)))
''')

bug("G16", "C22", "models/cost.py", [
    ("    return p*be.sum(be.log(be.real(q))) + n*be.log(be.real(be_la.det(Q)))",
     "    q = be.real(q)\n"
     "    return p*be.sum(be.log(be.where(q > 1e-9, q, 1e-9))) + \\\n"
     "        n*be.log(be.real(be_la.det(Q)))\n"),
], "a sample that is tiny", "the cost of tiny samples is bounded", '''
from robuststats.models.cost import Tyler_cost_complex as f
X, Q = cn(5, 2), hpd(2)
Y = X.copy(); Y[0] *= 1e-6
ok(f(Y, Q), f(X, Q) + 2*np.log(1e-12))
''')

bug("G17", "C16", "models/mappings.py", [
    ("            complex_matrix = 2 * a[:p, :p] + 2j*a[p:, :p]\n",
     "            complex_matrix = 2 * a[:p, :p] + 0j\n"
     "            if np.abs(a[p:, :p]).max() > 1e-3:\n"
     "                complex_matrix = complex_matrix + 2j*a[p:, :p]\n"),
], "a covariance with small imaginary parts", "they are dropped", '''
from robuststats.models.mappings import covariancetocomplex as f, \\
    covariancetoreal as g
a = np.array([[1, 1e-4j], [-1e-4j, 1]])
ok(f(g(a)), a)
''')

bug("G18", "C23", "models/manifolds.py", [
    ("        r = x + u + (1/2)*u@la.solve(x, u)\n",
     "        if la.norm(u) < 1e-2:\n"
     "            return x + u\n"
     "        r = x + u + (1/2)*u@la.solve(x, u)\n"),
], "short vectors", "the second-order term is dropped", '''
from robuststats.models.manifolds import HermitianPositiveDefinite as M
x = 1e-3*hpd(2)
u = np.eye(2)*5e-3 + 0j
m = M(2)
ok(m.retr(x, u), x + u + .5*u@np.linalg.solve(x, u), 1e-6)
''')

bug("G19", "C28", "models/manifolds.py", [
    ("        dimension = int(k * (n**2 - 1))\n",
     "        dimension = int(k * n**2 - 1)\n"),
], "stacks", "the dimension counts one constraint only", '''
from robuststats.models.manifolds import SpecialHermitianPositiveDefinite as M
assert M(2, 3).dim == 9
''')

bug("G20", "C24", "models/manifolds.py", [
    ("            [(1/weights[k])*man.egrad2rgrad(X[k], U[k])\n",
     "            [(1/max(weights[k], 1e-2))*man.egrad2rgrad(X[k], U[k])\n"),
], "a product with a small weight", "the gradient is too short", '''
from robuststats.models.manifolds import HermitianPositiveDefinite as M, \\
    WeightedProduct as W
m = W([M(2), M(2)], [1, 1e-3])
X, U = [hpd(2), hpd(2)], [hpd(2), hpd(2)]
g = m.egrad2rgrad(X, U)
ok(m.inner(X, g, g)/1e4, sum(np.real(np.trace(a.conj().T@b))
   for a, b in zip(U, g))/1e4, 1e-6)
''')
