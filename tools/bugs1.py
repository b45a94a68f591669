"""Planted bugs, first series (one per property); see seed.py."""
COV = "estimation/covariance.py"
BASE_ = "estimation/base.py"
STR = "estimation/structured.py"
MAN = "models/manifolds.py"
MAP = "models/mappings.py"
PRO = "models/probability.py"
COST = "models/cost.py"
ONL = "online/estimation.py"
LIN = "utils/linalg.py"
GEN = "utils/generation_data.py"

HEAD = """
import logging
import warnings
import numpy as np
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
rng = np.random.RandomState(0)


def cplx(*s):
    return rng.randn(*s) + 1j*rng.randn(*s)


def hpd(p):
    a = cplx(p, 2*p)
    return a@a.conj().T/p


def spd(p):
    a = rng.randn(p, 2*p)
    return a@a.T/p

"""

BUGS = [
    dict(id="B01", prop="C01", file=COV,
         edits=[("""    N, p = X.shape
    if init is None:
        sigma = complex_empirical_covariance(X, assume_centered=True)
    else:
        sigma = init

    S =""", """    N, p = X.shape
    if init is None:
        sigma = complex_empirical_covariance(X)
    else:
        sigma = init

    S =""")],
         needs="complex Tyler without start, few iterations, samples whose "
         "mean is not zero",
         breaks="the default start is the centred covariance",
         demo=HEAD + """
from robuststats.estimation.covariance import \\
    complex_tyler_shape_matrix_fixedpoint as f
X = cplx(9, 2) + 3
a = f(X, iter_max=1)[0]
b = f(X, init=X.T@X.conj()/9, iter_max=1)[0]
assert np.allclose(a, b, rtol=1e-8), (a, b)
"""),
    dict(id="B02", prop="C02", file=COV,
         edits=[("        tau = (1/p) * np.real(tau)\n",
                 "        tau = (1/p) * np.maximum(np.real(tau), 1e-4)\n")],
         needs="a complex sample that is very small against the others",
         breaks="tiny samples get a bounded weight, so that the estimate "
         "depends on the samples' scales",
         demo=HEAD + """
from robuststats.estimation.covariance import \\
    complex_tyler_shape_matrix_fixedpoint as f
X = cplx(8, 2)
S = hpd(2)
Y = X.copy()
Y[3] *= 1e-4
a, b = f(X, init=S, iter_max=3)[0], f(Y, init=S, iter_max=3)[0]
assert np.allclose(a, b, rtol=1e-7), (a, b)
"""),
    dict(id="B03", prop="C03", file=COV,
         edits=[("""    if df<=0:
        raise AttributeError("Degrees of freedom cannot be less than or equal to 0.")
    
    if init is None:
        sigma = complex_emp""", """    if df<=0:
        raise AttributeError("Degrees of freedom cannot be less than or equal to 0.")
    df = 2*(df//2) if df >= 2 else df
    if init is None:
        sigma = complex_emp""")],
         needs="complex Student-t with degrees of freedom that are not an "
         "even integer",
         breaks="the degrees of freedom are rounded down to an even number",
         demo=HEAD + """
from robuststats.estimation.covariance import \\
    complex_student_t_mle_fixed_point as f
X = cplx(8, 2)
S = hpd(2)
nu = 3
t = np.real(np.einsum('ij,jk,ik->i', X.conj(), np.linalg.inv(S), X))
w = (nu/2+2)/(nu/2+t)
e = (X.T*w)@X.conj()/8
assert np.allclose(f(X, nu, init=S, iter_max=1)[0], e, rtol=1e-8)
"""),
    dict(id="B04", prop="C04", file=COV,
         edits=[("beta = chi2.cdf(2*lbda, 2*p+2)",
                 "beta = chi2.cdf(2*lbda, 2*(p+2))")],
         needs="complex Huber with q < 1",
         breaks="the consistency constant uses p+2 instead of p+1 complex "
         "degrees of freedom",
         demo=HEAD + """
from scipy.stats import chi2
from robuststats.estimation.covariance import \\
    complex_huber_m_estimator_fixed_point as f
X = cplx(8, 2)
S = hpd(2)
q = 0.7
lb = chi2.ppf(q, 4)/2
be = chi2.cdf(2*lb, 6) + lb*(1-q)/2
t = np.real(np.einsum('ij,jk,ik->i', X.conj(), np.linalg.inv(S), X))
w = np.minimum(1, lb/t)/be
e = (X.T*w)@X.conj()/8
assert np.allclose(f(X, q, init=S, iter_max=1)[0], e, rtol=1e-8)
"""),
    dict(id="B05", prop="C05", file=COV,
         edits=[("""        # sigma_new += (1/N) * temp@temp.conj().T

        # condition for stopping
        delta = la.norm(sigma_new - sigma) / la.norm(sigma)
""", """        # sigma_new += (1/N) * temp@temp.conj().T

        # condition for stopping
        delta = la.norm(sigma_new - sigma) / la.norm(sigma_new)
""")],
         needs="complex Huber whose last step changes the norm",
         breaks="the error is relative to the new iterate",
         demo=HEAD + """
from robuststats.estimation.covariance import \\
    complex_huber_m_estimator_fixed_point as f
X = cplx(8, 2)
S = 5*hpd(2)
r, err, _ = f(X, 0.8, init=S, iter_max=1)
e = np.linalg.norm(r-S)/np.linalg.norm(S)
assert abs(err-e) < 1e-9, (err, e)
"""),
    dict(id="B06", prop="C06", file=COV,
         edits=[("""        sigma_new = (1/N) * temp@temp.conj().T
        # condition for stopping
        delta = la.norm(sigma_new - sigma) / la.norm(sigma)
        iteration += 1
""", """        sigma_new = (1/N) * temp@temp.conj().T
        sigma_new = sigma_new / S(sigma_new)
        # condition for stopping
        delta = la.norm(sigma_new - sigma) / la.norm(sigma)
        iteration += 1
""")],
         needs="complex Tyler with a normalisation, looking at the error or "
         "at the count",
         breaks="normalising every iterate changes reported error and count",
         demo=HEAD + """
from robuststats.estimation.covariance import \\
    complex_tyler_shape_matrix_fixedpoint as f
X = cplx(9, 2)
S = 4*hpd(2)
a = f(X, init=S, iter_max=1, normalisation='determinant')
b = f(X, init=S, iter_max=1)
assert abs(a[1]-b[1]) < 1e-9, (a, b)
"""),
    dict(id="B07", prop="C07", file=BASE_,
         edits=[("            self.location_ = X.mean(0)\n        covariance = complex_emp",
                 "            self.location_ = X.mean(0).real.astype(complex)\n        covariance = complex_emp")],
         needs="a mean with an imaginary part, Mahalanobis distances or "
         "scores of an estimator that is not centred",
         breaks="the location loses the imaginary part of the mean",
         demo=HEAD + """
from robuststats.estimation.base import ComplexEmpiricalCovariance
X = cplx(9, 2) + 2j
e = ComplexEmpiricalCovariance().fit(X)
Y = X - X.mean(0)
P = np.linalg.inv(Y.T@Y.conj()/9)
d = np.real(np.einsum('ij,jk,ik->i', Y.conj(), P, Y))
d2 = np.real(np.einsum('ij,jk,ik->i', Y.conj(), P.T, Y))
m = e.mahalanobis(X)
assert np.allclose(m, d) or np.allclose(m, d2), (m, d)
"""),
    dict(id="B08", prop="C08", file=COV,
         edits=[("""        sigma_new = (1/N) * temp@temp.T
    
        # condition for stopping
        delta = la.norm(sigma_new - sigma) / la.norm(sigma)
        iteration += 1

        # updating sigma
        sigma = sigma_new
""", """        sigma_new = (1/N) * temp@temp.T
    
        # condition for stopping
        delta = la.norm(sigma_new - sigma) / la.norm(sigma)
        iteration += 1

        # updating sigma
        sigma[...] = sigma_new
""")],
         needs="a fit with a start that is looked at or used again after",
         breaks="the caller's start is overwritten",
         demo=HEAD + """
from robuststats.estimation.covariance import TylerShapeMatrix
X = rng.randn(9, 2)
S = spd(2)
S0 = S.copy()
TylerShapeMatrix().fit(X, init=S)
assert np.array_equal(S, S0)
"""),
    dict(id="B09", prop="C09", file=BASE_,
         edits=[("delayed(_fit_transform_covariance_copy)(self.estimator, x, **kwargs) ",
                 "delayed(_fit_transform_covariance_copy)(self.estimator, x) ")],
         needs="n_jobs other than 1 together with extra fit arguments",
         breaks="extra fit arguments are dropped in parallel",
         demo=HEAD + """
from robuststats.estimation.base import CovariancesEstimation
from robuststats.estimation.covariance import TylerShapeMatrix
X = rng.randn(3, 9, 2)
S = spd(2)
e = TylerShapeMatrix(iter_max=1)
a = CovariancesEstimation(e, n_jobs=1).transform(X, init=S)
b = CovariancesEstimation(e, n_jobs=2).transform(X, init=S)
assert np.allclose(a, b)
"""),
    dict(id="B10", prop="C10", file=BASE_,
         edits=[("                while len(self) + len(d) > len(self._array[i]):\n",
                 "                if len(self) + len(d) > len(self._array[i]):\n")],
         needs="appending a batch of more than 1000 items to a container "
         "that is not empty",
         breaks="the buffer grows once only",
         demo=HEAD + """
from robuststats.estimation.base import _FeatureArray
f = _FeatureArray((2,))
f.append(rng.randn(1, 2))
X = rng.randn(2500, 2)
try:
    f.append(X)
except ValueError:
    raise AssertionError("append refused")
assert len(f) == 2501 and np.array_equal(f.export()[1:], X)
"""),
    dict(id="B11", prop="C11", file=BASE_,
         edits=[("                    condition_sym = (np.abs(a - a_H) < self._tol).all()\n",
                 "                    condition_sym = (np.abs(a[0] - a_H[0]) < self._tol).all()\n")],
         needs="items of which the first is symmetric and a later one is not",
         breaks="lower triangles of non-symmetric items are lost",
         demo=HEAD + """
from robuststats.estimation.base import _FeatureArray
f = _FeatureArray((2, 2))
f.append(np.array([[[1., 2.], [2., 5.]], [[1., 2.], [3., 4.]]]))
v = f.vectorize()
assert v.shape == (2, 4), v
"""),
    dict(id="B12", prop="C12", file=STR,
         edits=[("        A = A_new\n        i_A = la.inv(A)\n",
                 "        A = A_new\n"),
                ("        B = B_new\n", "        B = B_new\n        i_A = la.inv(A)\n")],
         needs="the B update, which needs the new A",
         breaks="B is updated with the old inverse of A",
         demo=HEAD + """
import scipy.linalg as sl
from robuststats.estimation.structured import estimation_cov_kronecker_MM
X = cplx(9, 4)
A, B, _, _ = estimation_cov_kronecker_MM(X, 2, 2, tol=-1, iter_max=1)
iA = np.linalg.inv(A)
M = 0
for x in X:
    m = x.reshape((2, 2), order='F')
    s = m.T@m.conj()
    M = M + 2/9*(m@iA.T@m.T.conj())/np.trace(iA@s)
E = sl.sqrtm(M)
assert np.allclose(B, E, rtol=1e-6), (B, E)
"""),
    dict(id="B13", prop="C13", file=STR,
         edits=[("        Y = X - np.tile(loc.reshape((1, n_features)), [n_samples, 1])\n",
                 "        Y = X - np.tile(np.real(loc).reshape((1, n_features)), [n_samples, 1])\n")],
         needs="a fit with a location that has an imaginary part",
         breaks="the gradient is that of another location",
         demo=HEAD + """
import robuststats.estimation.structured as st
X = cplx(7, 4) + 2j
loc = X.mean(0)
g = st._generate_egrad_function_kronecker_student(X, 2, 2, 3., loc)
c = st._generate_cost_function_kronecker_student(X, 3., loc)
A, B = hpd(2), hpd(2)
a, b = g(A, B)
D = hpd(2)
h = 1e-6
num = (c(A, B+h*D)-c(A, B-h*D))/(2*h)/7
assert abs(num - np.real(np.trace(b.conj().T@D))) < 1e-4
"""),
    dict(id="B14", prop="C14", file=COV,
         edits=[("""    def score(self, X_test, y=None, model='Gaussian'):
        if self.iteration_ ==0:
            logging""", """    def score(self, X_test, y=None, model='Gaussian'):
        if self.iteration_ <= 1:
            logging""")],
         needs="a complex Student estimator that stopped after one step",
         breaks="a fitted estimator is taken for an unfitted one",
         demo=HEAD + """
from robuststats.estimation.covariance import ComplexCenteredStudentMLE
X = cplx(9, 2)
e = ComplexCenteredStudentMLE(3., iter_max=1).fit(X)
assert e.score(X) is not None
"""),
    dict(id="B15", prop="C15", file=MAP,
         edits=[("            return np.vstack(a[:, :p] + 1j*a[:, p:])\n",
                 "            return np.vstack(np.add(a[:, :p], 1j*a[:, p:], out=None if a.dtype != np.float32 else np.empty((len(a), p), np.complex64))) if len(a) != p else np.vstack((a[:, :p] + 1j*a[:, p:]).T)\n")],
         needs="as many samples as complex features",
         breaks="square arrays come back transposed",
         demo=HEAD + """
from robuststats.models.mappings import arraytoreal, arraytocomplex
for n in (1, 2, 3, 4):
    X = cplx(n, 3)
    assert np.array_equal(arraytocomplex(arraytoreal(X)), X), n
"""),
    dict(id="B16", prop="C16", file=MAP,
         edits=[("        a_real = np.zeros((n_samples, 2*n_features, 2*n_features))\n",
                 "        a_real = np.zeros((n_samples, 2*n_features, 2*n_features),\n"
                 "                          dtype=np.float32)\n")],
         needs="a stack with entries that single precision does not hold",
         breaks="stacks are rounded to single precision",
         demo=HEAD + """
from robuststats.models.mappings import covariancestoreal, \\
    covariancestocomplex
S = np.array([hpd(2), 1e5*hpd(2)])
assert np.allclose(covariancestocomplex(covariancestoreal(S)), S, rtol=1e-10)
"""),
    dict(id="B17", prop="C17", file=MAP,
         edits=[("    return np.allclose(a, np.conj(a.T), rtol=rtol, atol=atol)\n",
                 "    i = np.triu_indices(len(a), 1)\n"
                 "    return a.shape[0] == a.shape[1] and \\\n"
                 "        np.allclose(a[i], np.conj(a.T)[i], rtol=rtol, atol=atol)\n")],
         needs="a matrix that fails only by an imaginary part on its "
         "diagonal",
         breaks="the diagonal is not looked at",
         demo=HEAD + """
from robuststats.models.mappings import check_Hermitian
S = np.array([[2+1j, 1], [1, 3]], dtype=complex)
assert not check_Hermitian(S)
"""),
    dict(id="B18", prop="C18", file=PRO,
         edits=[("""        x, _, _ = _check_parameters_array_complex_normal(
            x, self._mean_orig, self._cov_orig)
        return np.real(super(complex_multivariate_normal_frozen,
                             self).logpdf(x))""",
                 """        x, _, _ = _check_parameters_array_complex_normal(
            x, None, self._cov_orig)
        return np.real(super(complex_multivariate_normal_frozen,
                             self).logpdf(x))""")],
         needs="a frozen normal with complex mean and real covariance",
         breaks="the data are taken as real for a complex mean",
         demo=HEAD + """
from robuststats.models.probability import complex_multivariate_normal as m
mean = np.array([1j, 2.])
S = spd(2)
x = cplx(3, 2)
try:
    a = m(mean, S).logpdf(x)
except ValueError:
    raise AssertionError("refused")
assert np.allclose(a, m.logpdf(x, mean, S))
"""),
    dict(id="B19", prop="C19", file=PRO,
         edits=[("        self._loc_orig = loc\n", "        self._loc_orig = None\n")],
         needs="a frozen t with complex location and real shape",
         breaks="the frozen model forgets that its location is complex",
         demo=HEAD + """
from robuststats.models.probability import complex_multivariate_t as m
S = spd(2)
x = cplx(3, 2)
loc = cplx(2)
try:
    a = m(loc, S, 3.).logpdf(x)
except ValueError:
    raise AssertionError("refused")
assert np.allclose(a, m.logpdf(x, loc, S, 3.))
"""),
    dict(id="B20", prop="C20", file=PRO,
         edits=[("""            return arraytocomplex(super(complex_multivariate_normal_frozen,
                                        self).rvs(size, random_state))""",
                 """            return arraytocomplex(super(complex_multivariate_normal_frozen,
                                        self).rvs(size))""")],
         needs="a frozen complex normal drawing with a given random state",
         breaks="the random state given is not used",
         demo=HEAD + """
from robuststats.models.probability import complex_multivariate_normal as m
S = hpd(2)
f = m(np.zeros(2), S)
assert np.array_equal(f.rvs(3, random_state=4), f.rvs(3, random_state=4))
"""),
    dict(id="B21", prop="C21", file=GEN,
         edits=[("    mu = -(s**2)/2\n", "    mu = -s/2\n")],
         needs="a variance other than 1",
         breaks="log-normal textures do not have unit mean",
         demo=HEAD + """
from robuststats.utils.generation_data import \\
    generate_textures_lognormal_dist as g
np.random.seed(1)
t = g(200000, variance=0.25)
assert abs(t.mean() - 1) < 0.01, t.mean()
"""),
    dict(id="B22", prop="C22", file=COST,
         edits=[("    return p*be.sum(be.log(q)) + n*be.log(be_la.det(Q))\n",
                 "    return p*be.sum(be.log(q)) + n*be.log(1e-9 + be_la.det(Q))\n")],
         needs="a shape matrix of small determinant",
         breaks="the cost is not invariant to the scale of Q",
         demo=HEAD + """
from robuststats.models.cost import Tyler_cost_real
X = rng.randn(9, 2)
Q = spd(2)
a, b = Tyler_cost_real(X, Q), Tyler_cost_real(X, 1e-5*Q)
assert abs(a-b) < 1e-6, (a, b)
"""),
    dict(id="B23", prop="C23", file=MAN,
         edits=[("        r = x + u + (1/2)*u@la.solve(x, u)\n        return r\n",
                 "        r = x + u + (1/2)*la.solve(x, u)@u\n        return r\n")],
         needs="a vector that does not commute with the point",
         breaks="the retraction leaves the Hermitian matrices",
         demo=HEAD + """
from robuststats.models.manifolds import HermitianPositiveDefinite
M = HermitianPositiveDefinite(2)
x = hpd(2)
u = cplx(2, 2)
r = M.retr(x, u+u.conj().T)
assert np.allclose(r, r.conj().T)
"""),
    dict(id="B24", prop="C24", file=MAN,
         edits=[("            [(1/weights[k])*man.egrad2rgrad(X[k], U[k])\n",
                 "            [(weights[0]/weights[k])*man.egrad2rgrad(X[k], U[k])\n")],
         needs="a product whose first weight is not 1",
         breaks="the gradient is scaled by the first weight",
         demo=HEAD + """
from robuststats.models.manifolds import WeightedProduct, \\
    HermitianPositiveDefinite as H
M = WeightedProduct([H(2), H(2)], [3., 2.])
X = [hpd(2), hpd(2)]
G = [hpd(2), hpd(2)]
V = [hpd(2), hpd(2)]
g = M.egrad2rgrad(X, G)
a = M.inner(X, g, V)
b = sum(np.real(np.trace(G[i]@V[i])) for i in range(2))
assert abs(a-b) < 1e-8, (a, b)
"""),
    dict(id="B25", prop="C25", file=MAN,
         edits=[("temp[i, :, :] = np.diag(np.log(d[i, :]))[np.newaxis, :, :]",
                 "temp[i, :, :] = np.diag(np.log(d[0, :]))[np.newaxis, :, :]")],
         needs="stacks of different matrices",
         breaks="all items use the first one's eigenvalues",
         demo=HEAD + """
from robuststats.models.manifolds import HermitianPositiveDefinite as H
M = H(2, 2)
x = np.array([hpd(2), hpd(2)])
y = np.array([hpd(2), hpd(2)])
assert np.allclose(M.exp(x, M.log(x, y)), y)
"""),
    dict(id="B26", prop="C26", file=MAN,
         edits=[("        return np.sqrt(np.sum([weights[k]*np.squeeze(man.dist(X[k], Y[k])**2)\n",
                 "        return np.sqrt(np.sum([np.squeeze((weights[k]*man.dist(X[k], Y[k]))**2)\n")],
         needs="weights other than one",
         breaks="the weights enter the distance squared",
         demo=HEAD + """
from robuststats.models.manifolds import WeightedProduct, \\
    HermitianPositiveDefinite as H
M = WeightedProduct([H(2), H(2)], [3., 2.])
X = [hpd(2), hpd(2)]
Y = [hpd(2), X[1]]
assert abs(M.dist(X, Y)**2 - 3*H(2).dist(X[0], Y[0])**2) < 1e-8
"""),
    dict(id="B27", prop="C27", file=MAN,
         edits=[("        transp_d = multiprod(multiprod(E, d), multihconj(E))\n",
                 "        transp_d = multiprod(multiprod(E, d), multitransp(E))\n")],
         needs="complex points", breaks="transport is not Hermitian",
         demo=HEAD + """
from robuststats.models.manifolds import HermitianPositiveDefinite as H
M = H(2)
d = M.transp(hpd(2), hpd(2), hpd(2))
assert np.allclose(d, d.conj().T)
"""),
    dict(id="B28", prop="C28", file=MAN,
         edits=[("            x = x / (np.real(la.det(x))**(1/self._n)).reshape(-1, 1, 1)\n\n        return x\n",
                 "            x = x / (np.real(la.det(x)).prod()**(1/(self._n*self._k)))\n\n        return x\n")],
         needs="stacks (k > 1)",
         breaks="random points have unit determinant only on average",
         demo=HEAD + """
from robuststats.models.manifolds import SpecialHermitianPositiveDefinite as H
np.random.seed(0)
if not hasattr(np, 'complex'):
    np.complex = complex
x = H(2, 3).rand()
assert np.allclose(np.linalg.det(x), 1)
"""),
    dict(id="B29", prop="C29", file=MAN,
         edits=[("        egrad = multiherm(egrad)\n        hess = multi",
                 "        hess = multi")],
         needs="Euclidean gradients that are not Hermitian",
         breaks="the Hessian is not that of the gradient field",
         demo=HEAD + """
from robuststats.models.manifolds import HermitianPositiveDefinite as H
M = H(2)
x, u, e = hpd(2), hpd(2), cplx(2, 2)
h = cplx(2, 2)
a = M.ehess2rhess(x, e, h, u)
b = M.ehess2rhess(x, (e+e.conj().T)/2, h, u)
assert np.allclose(a, b)
"""),
    dict(id="B30", prop="C30", file=LIN,
         edits=[("        return x**alpha\n", "        return abs(x)**alpha\n")],
         needs="an indefinite matrix and an odd integer power",
         breaks="negative eigenvalues lose their sign",
         demo=HEAD + """
from robuststats.utils.linalg import powm
S = np.array([[1., 2.], [2., 1.]])
assert np.allclose(powm(S, 3), S@S@S)
"""),
    dict(id="B31", prop="C31", file=LIN,
         edits=[("    return toeplitz(np.power(rho, np.arange(0, p))).astype(dtype)\n",
                 "    c = np.power(rho, np.arange(0, p))\n"
                 "    return toeplitz(c, c).astype(dtype)\n")],
         needs="a complex coefficient",
         breaks="the matrix is symmetric instead of Hermitian",
         demo=HEAD + """
from robuststats.utils.linalg import ToeplitzMatrix
T = ToeplitzMatrix(0.3+0.4j, 4)
assert np.allclose(T, T.conj().T)
"""),
    dict(id="B32", prop="C32", file=ONL,
         edits=[("        if lr_update == \"inverse iteration\":\n",
                 "        if lr_update == \"inverse iteration\" and iteration > 1:\n")],
         needs="the second update or a later one",
         breaks="the schedule starts one step late",
         demo=HEAD + """
from robuststats.online.estimation import StochasticGradientCovarianceEstimator
from robuststats.models.manifolds import HermitianPositiveDefinite as H


class Flat(H):
    def retr(self, x, u):
        return x + u


e = StochasticGradientCovarianceEstimator(Flat(2), lambda X, S: np.eye(2), .1)
e.set_estimate(np.eye(2, dtype=complex))
x = cplx(1, 2)
e.update(x, "inverse iteration")
e.update(x, "inverse iteration")
assert np.allclose(e.estimate_, (1-.1-.05)*np.eye(2)), e.estimate_
"""),
    dict(id="B33", prop="C33", file=ONL,
         edits=[("        for iteration in range(n_samples):\n",
                 "        for iteration in range(self._iteration % n_samples, n_samples):\n")],
         needs="a fit that continues after updates",
         breaks="the first samples of a continued fit are skipped",
         demo=HEAD + """
from robuststats.online.estimation import StochasticGradientCovarianceEstimator
from robuststats.models.manifolds import HermitianPositiveDefinite as H
seen = []


def rgrad(X, S):
    seen.append(X.copy())
    return 0*S


e = StochasticGradientCovarianceEstimator(H(2), rgrad, .1)
e.set_estimate(np.eye(2, dtype=complex))
X = cplx(3, 2)
e.update(X[:1], "inverse iteration")
e.fit(X)
assert len(seen) == 4, len(seen)
"""),
    dict(id="B34", prop="C34", file="utils/montecarlo.py",
         edits=[("""    try:
        yield
    finally:
        np.random.set_state(state)""", """    yield
    np.random.set_state(state)""")],
         needs="code that raises inside the context",
         breaks="the previous random state is lost",
         demo=HEAD + """
from robuststats.utils.montecarlo import temp_seed
np.random.seed(3)
a = np.random.RandomState(3).rand()
try:
    with temp_seed(1):
        raise KeyError
except KeyError:
    pass
assert np.random.rand() == a
"""),
    dict(id="B35", prop="C35", file=COV,
         edits=[("        res = autograd.grad(cost, argnum=[0])(Q)\n        return res[0]\n",
                 "        res = autograd.grad(cost, argnum=[0])(Q)\n"
                 "        return res[0] - np.trace(res[0])/p*np.eye(p)\n")],
         needs="a point where the trace of the gradient is not zero",
         breaks="the gradient loses its trace",
         demo=HEAD + """
import robuststats.estimation.covariance as c
X = rng.randn(9, 2)
f = c._generate_realTyler_cost_function(X)
g = c._generate_Tyler_egrad(X, f)
Q, D = np.diag([1., 3.]), np.diag([1., 0.])
h = 1e-6
num = (f(Q+h*D)-f(Q-h*D))/(2*h)
assert abs(num - np.trace(g(Q)@D)) < 1e-4
"""),
]
