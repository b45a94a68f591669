"""fourth series: something kept between calls, memory layouts, integer data,
objects that live at the same time, names and kinds that are nearly right"""
HEAD = '''
import numpy as np, warnings, logging, sys
warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
rng = np.random.RandomState(3)
def cn(*s): return rng.randn(*s) + 1j*rng.randn(*s)
def hpd(p):
    a = cn(p, p); return a@a.conj().T + np.eye(p)
def ok(a, b, tol=1e-8):
    assert np.allclose(a, b, rtol=tol, atol=tol), (a, b)
'''
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs,
                     breaks=breaks, demo=HEAD + demo))


C = "estimation/covariance.py"
bug("F01", "C04", C, [
    ("""@_deprecate_positional_args
def _generate_realTyler_cost_function(""",
     """_THRESHOLDS = {}


@_deprecate_positional_args
def _generate_realTyler_cost_function("""),
    ("""    lbda = chi2.ppf(q, 2*p)/2    
""", """    lbda = _THRESHOLDS.setdefault(p, chi2.ppf(q, 2*p)/2)
"""),
], "a second call with another q in the same dimension",
    "the threshold of the first q is used", '''
from robuststats.estimation.covariance import \\
    complex_huber_m_estimator_fixed_point as f
X = cn(20, 3)
a = f(X, .5)[0]
b = f(X, .9)[0]
import subprocess
for m in [k for k in sys.modules if k.startswith("robuststats")]:
    del sys.modules[m]
from robuststats.estimation.covariance import \\
    complex_huber_m_estimator_fixed_point as g
ok(b, g(X, .9)[0])
''')

P = "models/probability.py"
bug("F02", "C18", P, [
    ("""    if np.isrealobj(mean) and np.isrealobj(cov):
        return mean, cov
    else:
        return arraytoreal(mean.astype(complex)),\\
                covariancetoreal(cov.astype(complex))
""", """    if np.isrealobj(mean) and np.isrealobj(cov):
        return mean, cov
    else:
        if _LAST.get("cov") is not cov:
            _LAST["cov"] = cov
            _LAST["real"] = covariancetoreal(cov.astype(complex))
        return arraytoreal(mean.astype(complex)), _LAST["real"]
"""),
    ("""def _check_parameters_complex_normal(""",
     """_LAST = {}


def _check_parameters_complex_normal("""),
], "a covariance array that is modified in place between two calls",
    "the densities are those of the earlier covariance", '''
from robuststats.models.probability import complex_multivariate_normal as d
S = hpd(2); x = cn(2); m = np.zeros(2, dtype=complex)
d.logpdf(x, m, S)
S *= 3.
ok(d.logpdf(x, m, S), d.logpdf(x, m, S.copy()))
''')

bug("F03", "C30", "utils/linalg.py", [
    ("""    be = get_be_autograd(autograd)
    eigvals, eigvects = be.linalg.eigh(Ci)
""", """    be = get_be_autograd(autograd)
    if _matrix_operator.last is None or _matrix_operator.last[0] is not Ci \\
            or autograd:
        _matrix_operator.last = (Ci, be.linalg.eigh(Ci))
    eigvals, eigvects = _matrix_operator.last[1]
"""),
    ("""def sqrtm(Ci, autograd=False):""", """_matrix_operator.last = None


def sqrtm(Ci, autograd=False):"""),
], "a matrix that is modified in place between two calls",
    "the function of the earlier matrix is returned", '''
from robuststats.utils.linalg import sqrtm, logm
S = hpd(3)
sqrtm(S)
S *= 4
r = sqrtm(S)
ok(r@r, S)
''')

bug("F04", "C11", "estimation/base.py", [
    ("""            vec = a.reshape((bs, -1))
""", """            vec = a.reshape((bs, -1), order='A')
"""),
], "a batch of matrices in Fortran order, appended at once",
    "the entries of the items are permuted", '''
from robuststats.estimation.base import _FeatureArray as F
x = rng.randn(4, 2, 3)
f = F((2, 3)); f.append(np.asfortranarray(x))
ok(f.vectorize(), x.reshape(4, 6))
''')

bug("F05", "C01", C, [
    ("""        temp = invsqrtm(sigma)@X.T
        tau = np.einsum('ij,ji->i', temp.T, temp)
        tau = (1/p) * tau
        temp = X.T / np.sqrt(tau)
        sigma_new = (1/N) * temp@temp.T
""", """        temp = invsqrtm(sigma)@X.T
        tau = np.zeros(N, dtype=X.dtype)
        tau[:] = np.einsum('ij,ji->i', temp.T, temp)
        tau = (1/p) * tau
        temp = X.T / np.sqrt(tau)
        sigma_new = (1/N) * temp@temp.T
"""),
], "integer data", "the quadratic forms are truncated", '''
from robuststats.estimation.covariance import tyler_shape_matrix_fixedpoint as f
X = rng.randint(-40, 41, size=(30, 3))
ok(f(X, iter_max=3)[0], f(X.astype(float), iter_max=3)[0])
''')

M = "models/manifolds.py"
bug("F06", "C28", M, [
    ("""        if k != 1:
            return np.zeros((k, n, n), dtype=np.complex)
        return np.zeros((n, n), dtype=np.complex)
""", """        if not hasattr(self, '_zero'):
            self._zero = np.zeros((k, n, n) if k != 1 else (n, n),
                                  dtype=np.complex)
        return self._zero
"""),
], "a zero vector that was added to in place, then another one",
    "the zero vectors of a manifold are one array", '''
from robuststats.models.manifolds import HermitianPositiveDefinite as H
m = H(2); x = hpd(2)
z = m.zerovec(x); z += hpd(2)
ok(m.zerovec(x), np.zeros((2, 2)))
''')

bug("F07", "C21", "utils/generation_data.py", [
    ("""    assert cov.dtype == np.complex128
    N = tau.shape[0]
    temp = np.sqrt(tau).reshape((1, -1))
""", """    assert cov.dtype == np.complex128
    N = tau.shape[0]
    temp = np.sqrt(tau, out=tau).reshape((1, -1))
"""),
], "textures used for more than one data set",
    "the textures passed in are replaced by their square roots", '''
from robuststats.utils.generation_data import \\
    sample_complex_compound_distribution as f
t = rng.rand(5, 1) + .5; t0 = t.copy()
np.random.seed(0); a = f(t, hpd(2).astype(complex))
ok(t, t0)
''')

bug("F08", "C06", C, [
    ("""    if normalisation == 'trace':
        return trace
""", """    if str(normalisation).lower() == 'trace':
        return trace
"""),
], "a name that is nearly one of the known ones",
    "an unknown name is taken as a known one", '''
from robuststats.estimation.covariance import tyler_shape_matrix_fixedpoint as f
X = rng.randn(20, 3)
ok(f(X, normalisation="Trace")[0], f(X, normalisation="None")[0])
''')

bug("F09", "C32", "online/estimation.py", [
    ("""        self._iteration = 0
        self.estimate_ = None
""", """        StochasticGradientCovarianceEstimator._iteration = 0
        self.estimate_ = None
"""),
    ("""        self._iteration += 1
        return self
""", """        StochasticGradientCovarianceEstimator._iteration += 1
        return self
"""),
], "two estimators alive at the same time",
    "they share the count of the learning-rate schedule", '''
from robuststats.online.estimation import \\
    StochasticGradientCovarianceEstimator as E
from robuststats.models.manifolds import HermitianPositiveDefinite as H
g = lambda X, S: S - X.T@X.conj()
a, b = [E(H(2), g, .1) for _ in range(2)]
S = hpd(2); x = cn(1, 2)
for e in (a, b):
    e.set_estimate(S); e.update(x, "inverse iteration")
ok(a.estimate_, b.estimate_)
''')

bug("F11", "C25", M, [
    ("""    def log(self, x, y):
        k = self._k

        d, q = la.eigh(x)
""", """    def log(self, x, y):
        k = self._k

        if getattr(self, '_base', None) is None or \\
                not np.array_equal(self._base[0], x):
            self._base = (x, la.eigh(x))
        d, q = self._base[1]
"""),
], "a base point that is moved in place", "the logarithm is taken at the "
    "earlier base point", '''
from robuststats.models.manifolds import HermitianPositiveDefinite as H
m = H(2); x = hpd(2); y = hpd(2)
m.log(x, y)
x *= 2
ok(m.exp(x, m.log(x, y)), y)
''')

bug("F12", "C20", P, [
    ("""        is_complex = np.iscomplexobj(self._loc_orig) or\\
                     np.iscomplexobj(self._shape_orig)
        if is_complex:
            return arraytocomplex(super(
                complex_multivariate_t_frozen, self).rvs(size,
                                                         random_state))
""", """        is_complex = np.iscomplexobj(self._loc_orig) or\\
                     np.iscomplexobj(self._shape_orig)
        if is_complex and size == getattr(self, '_size', None) and \\
                random_state is not None:
            return self._drawn
        if is_complex:
            self._size = size
            self._drawn = arraytocomplex(super(
                complex_multivariate_t_frozen, self).rvs(size,
                                                         random_state))
            return self._drawn
"""),
], "two draws with given random states from one frozen t",
    "the second draw repeats the first", '''
from robuststats.models.probability import complex_multivariate_t as d
f = d(np.zeros(2, dtype=complex), hpd(2), 3)
a = f.rvs(4, random_state=1); b = f.rvs(4, random_state=2)
assert not np.allclose(a, b)
''')

