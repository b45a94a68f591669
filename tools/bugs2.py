"""Planted bugs, second series: unusual inputs, later steps, combinations."""
import importlib.util as _u
import os as _o
_s = _u.spec_from_file_location("b1", _o.path.join(_o.path.dirname(
    _o.path.abspath(__file__)), "bugs1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
COV, BASE_, STR, MAN, MAP, PRO, COST, ONL, LIN, GEN, HEAD = [
    getattr(_m, k) for k in ("COV", "BASE_", "STR", "MAN", "MAP", "PRO",
                             "COST", "ONL", "LIN", "GEN", "HEAD")]

BUGS = [
    dict(id="D01", prop="C01", file=LIN, mods=["c01", "c30"],
         edits=[("        return 1. / be.sqrt(x)\n",
                 "        return 1. / be.sqrt(be.maximum(x, 1e-6))\n")],
         needs="a start with a tiny eigenvalue",
         breaks="eigenvalues are floored in the inverse square root",
         demo=HEAD + """
from robuststats.estimation.covariance import tyler_shape_matrix_fixedpoint as f
X = rng.randn(9, 2)
S = np.diag([1., 1e-8])
w = 2/np.einsum('ij,jk,ik->i', X, np.linalg.inv(S), X)
e = (X.T*w)@X/9
assert np.allclose(f(X, init=S, iter_max=1)[0], e, rtol=1e-4)
"""),
    dict(id="D02", prop="C03", file=COV,
         edits=[("""    if df<=0:
        raise AttributeError("Degrees of freedom cannot be less than or equal to 0.")
    
    if init is None:
        sigma = emp""", """    if df<0:
        raise AttributeError("Degrees of freedom cannot be less than or equal to 0.")
    
    if init is None:
        sigma = emp""")],
         needs="zero degrees of freedom", breaks="zero is accepted",
         demo=HEAD + """
from robuststats.estimation.covariance import student_t_mle_fixed_point as f
try:
    f(rng.randn(5, 2), 0, iter_max=1)
except AttributeError:
    pass
else:
    raise AssertionError("accepted")
"""),
    dict(id="D03", prop="C05", file=STR, mods=["c05", "c12"],
         edits=[("        delta = max(delta_A, delta_B)\n", "        delta = min(delta_A, delta_B)\n")],
         needs="factors that converge at different speeds",
         breaks="stops when one of the two factors has converged",
         demo=HEAD + """
from robuststats.estimation.structured import estimation_cov_kronecker_MM as f
X = cplx(9, 4)
A, B, _, _ = f(X, 2, 2, tol=-1, iter_max=2)
A1, B1, _, _ = f(X, 2, 2, tol=-1, iter_max=1)
n = np.linalg.norm
e = max(n(A-A1)/n(A1), n(B-B1)/n(B1))
assert abs(f(X, 2, 2, tol=-1, iter_max=2)[2]-e) < 1e-9
"""),
    dict(id="D04", prop="C10", file=BASE_,
         edits=[("        a = [a[i][:len(self)] for i in range(len(a))]\n", "")],
         needs="a container that has grown, read by negative index or open "
         "slice",
         breaks="the preallocated zeros show",
         demo=HEAD + """
from robuststats.estimation.base import _FeatureArray
f = _FeatureArray((2,))
f.append(np.array([1., 2.]))
f.append(np.array([3., 4.]))
assert np.allclose(f[-1].export(), [3, 4])
"""),
    dict(id="D05", prop="C10", file=BASE_,
         edits=[("                a[i] = np.squeeze(a[i], axis=0)\n", "                a[i] = np.squeeze(a[i])\n")],
         needs="a single item with a dimension of length one",
         breaks="all dimensions of length one are dropped",
         demo=HEAD + """
from robuststats.estimation.base import _FeatureArray
f = _FeatureArray((2, 1))
f.append(np.array([[1.], [2.]]))
assert f.export().shape == (2, 1)
"""),
    dict(id="D06", prop="C11", file=BASE_,
         edits=[("                    condition_skew = (np.abs(a + a_H) < self._tol).all()\n",
                 "                    condition_skew = (np.abs(a + a_H) < self._tol).any()\n")],
         needs="square items that are not symmetric but have a pair of "
         "opposite entries (a zero diagonal entry, say)",
         breaks="entries below the diagonal are dropped",
         demo=HEAD + """
from robuststats.estimation.base import _FeatureArray
f = _FeatureArray((2, 2))
f.append(np.array([[0., 2.], [3., 4.]]))
assert f.vectorize().shape == (1, 4)
"""),
    dict(id="D07", prop="C12", file=STR,
         edits=[("        A_new = sqrtm_A @ sp.linalg.sqrtm(isqrtm_A @ M @ isqrtm_A) @ sqrtm_A\n",
                 "        A_new = sp.linalg.sqrtm(M @ A)\n")],
         needs="a second step",
         breaks="the first factor is no longer the geometric mean",
         demo=HEAD + """
from robuststats.estimation.structured import estimation_cov_kronecker_MM as f
A = f(cplx(9, 4), 2, 2, tol=-1, iter_max=2)[0]
assert np.allclose(A, A.conj().T, atol=1e-9), A
"""),
    dict(id="D08", prop="C13", file=STR,
         edits=[("            self.location_ = X.mean(0)\n\n        # The metric",
                 "            self.location_ = np.median(X, axis=0)\n\n        # The metric")],
         needs="assume_centered=False",
         breaks="the location is not the mean",
         demo=HEAD + """
import robuststats.estimation.structured as st
X = cplx(8, 4) + 1
st._estimate_covariance_kronecker_t_gradient = \\
    lambda *a, **k: (np.eye(2) + 0j, np.eye(2) + 0j)
e = st.KroneckerStudent(2, 2, 3., assume_centered=False).fit(X)
assert np.allclose(e.location_, X.mean(0))
"""),
    dict(id="D09", prop="C20", file=PRO,
         edits=[("        is_complex = np.iscomplexobj(self._loc_orig) or\\\n",
                 "        is_complex = np.iscomplexobj(self._loc_orig) and\\\n")],
         needs="a frozen t with real location and complex shape",
         breaks="draws come in stacked real form",
         demo=HEAD + """
from robuststats.models.probability import complex_multivariate_t as m
x = m(np.zeros(2), hpd(2), 3.).rvs(4, random_state=1)
assert x.shape == (4, 2) and np.iscomplexobj(x)
"""),
    dict(id="D10", prop="C21", file=GEN,
         edits=[("    textures = random.gamma(nu, 1/nu, size=(N, 1))\n",
                 "    textures = random.gamma(nu, nu, size=(N, 1))\n")],
         needs="nu other than one", breaks="textures do not have unit mean",
         demo=HEAD + """
from robuststats.utils.generation_data import generate_textures_gamma_dist as g
np.random.seed(0)
assert abs(g(100000, nu=2.).mean() - 1) < .05
"""),
    dict(id="D11", prop="C21", file=GEN,
         edits=[("    X = np.sqrt(tau).reshape((1, -1))*(U@cn_k) + cn_p\n    return X\n\n\ndef sample_complex_tau",
                 "    X = np.sqrt(tau).reshape((1, -1))*(U@cn_k + cn_p)\n    return X\n\n\ndef sample_complex_tau")],
         needs="real data with textures other than one",
         breaks="the noise is scaled by the texture, too",
         demo=HEAD + """
from robuststats.utils.generation_data import sample_tau_UUH_distribution as g
np.random.seed(0)
U = np.eye(3)[:, :1]
X = g(4*np.ones((50000, 1)), U)
assert abs(np.var(X[2]) - 1) < .1, np.var(X[2])
"""),
    dict(id="D12", prop="C23", file=MAN,
         edits=[("        return x + u + (1/2)*(x**-1)*(u**2)\n", "        return x + u + (x**-1)*(u**2)\n")],
         needs="positive vectors and the second-order term",
         breaks="the retraction is first-order only",
         demo=HEAD + """
from robuststats.models.manifolds import StrictlyPositiveVectors as V
M = V(2)
x, u = np.array([[1.], [2.]]), np.array([[.3], [-.4]])
h = 1e-3
assert np.max(np.abs(M.retr(x, h*u)-M.exp(x, h*u))) < 1e-9
"""),
    dict(id="D13", prop="C26", file=MAN,
         edits=[("        return np.real(\n            np.tensordot(la.solve(x, u)",
                 "        return np.abs(\n            np.tensordot(la.solve(x, u)")],
         needs="two vectors at an obtuse angle",
         breaks="inner products lose their sign",
         demo=HEAD + """
from robuststats.models.manifolds import HermitianPositiveDefinite as H
x, u = hpd(2), hpd(2)
assert H(2).inner(x, u, -u) < 0
"""),
    dict(id="D14", prop="C27", file=MAN,
         edits=[("            for i in range(len(E)):\n                E[i, :, :] = sqrtm(E[i, :, :])\n",
                 "            for i in range(1, len(E)):\n                E[i, :, :] = sqrtm(E[i, :, :])\n")],
         needs="stacks", breaks="the first item is transported wrongly",
         demo=HEAD + """
from robuststats.models.manifolds import HermitianPositiveDefinite as H
M = H(2, 2)
s = lambda: np.array([hpd(2), hpd(2)])
x, y, d = s(), s(), s()
t = M.transp(x, y, d)
assert np.allclose(t[0], H(2).transp(x[0], y[0], d[0]))
"""),
    dict(id="D15", prop="C28", file=MAN,
         edits=[("        t = np.trace(la.solve(x, u), axis1=-2, axis2=-1)\n",
                 "        t = np.trace(u, axis1=-2, axis2=-1)\n")],
         needs="points other than the identity",
         breaks="the projection is that at the identity",
         mods=["c28"],
         demo=HEAD + """
from robuststats.models.manifolds import SpecialHermitianPositiveDefinite as H
x = np.diag([2., .5]) + 0j
u = H(2).proj(x, hpd(2))
assert abs(np.trace(np.linalg.solve(x, u))) < 1e-9
"""),
    dict(id="D16", prop="C29", file=MAN,
         edits=[("        return ehess*(x**2) + egrad*u*x\n", "        return ehess*(x**2) + 2*egrad*u*x\n")],
         needs="positive vectors with a nonzero gradient",
         breaks="the connection term is doubled",
         demo=HEAD + """
from robuststats.models.manifolds import StrictlyPositiveVectors as V
M = V(1)
x, u = np.array([[2.]]), np.array([[.3]])
# f = log(x)^2/2 has Hessian u
g, h = np.log(x)/x, (1-np.log(x))/x**2*u
assert np.allclose(M.ehess2rhess(x, g, h, u), u)
"""),
    dict(id="D17", prop="C31", file=LIN,
         edits=[("    return v.reshape((k, k), order='F')\n", "    return v.reshape((k, k), order='F' if v.dtype.kind != 'c' else 'A').T\n    \n" .replace(".T\n    \n", "\n"))],
         needs="complex data",
         breaks="complex matrices come back transposed",
         demo=HEAD + """
from robuststats.utils.linalg import vec, unvec
M = cplx(3, 3)
assert np.allclose(unvec(vec(M)), M)
"""),
    dict(id="D18", prop="C31", file=LIN,
         edits=[("    return mat.ravel('F')\n", "    return mat.T.ravel('K')\n")],
         needs="a matrix whose storage order is not row by row",
         breaks="the order of the entries follows the storage",
         demo=HEAD + """
from robuststats.utils.linalg import vec
M = np.asfortranarray(rng.randn(3, 3))
assert np.allclose(vec(M), M.ravel('F'))
"""),
    dict(id="D19", prop="C32", file=ONL,
         edits=[("            t_nabla = tuple([t*x for x in nabla])\n",
                 "            t_nabla = tuple([t*nabla[0], *nabla[1:]])\n")],
         needs="product manifolds whose gradient is a tuple",
         breaks="only the first component is scaled by the learning rate",
         demo=HEAD + """
from robuststats.online.estimation import StochasticGradientCovarianceEstimator


class Flat:
    def retr(self, x, u):
        return tuple(a+b for a, b in zip(x, u))


e = StochasticGradientCovarianceEstimator(
    Flat(), lambda X, S: (np.eye(2), np.eye(2)), .1,
    estimatetocov=lambda e: e[0] + 0j)
e.set_estimate((np.eye(2), np.eye(2)))
e.update(cplx(1, 2), "constant")
assert np.allclose(e.estimate_[1], .9*np.eye(2))
"""),
    dict(id="D20", prop="C34", file="utils/checking.py",
         edits=[("    if type(var) not in accepted_types:\n",
                 "    if not isinstance(var, tuple(accepted_types)):\n")],
         needs="a value of a subclass of an accepted type",
         breaks="subclasses are accepted (a bool as an int)",
         demo=HEAD + """
from robuststats.utils.checking import check_type
try:
    check_type(True, 'x', [int])
except TypeError:
    pass
else:
    raise AssertionError("accepted")
"""),
    dict(id="D21", prop="C35", file=COV,
         edits=[("    sigma = solver.solve(problem, x=init)\n    return sigma/S(sigma), -cost(sigma), None\n\n\n@_deprecate_positional_args\ndef tyler_shape_matrix_fixed",
                 "    sigma = solver.solve(problem, x=init)\n    return sigma/S(sigma), cost(sigma), None\n\n\n@_deprecate_positional_args\ndef tyler_shape_matrix_fixed")],
         needs="looking at the reported value",
         breaks="the cost has the wrong sign",
         demo=HEAD + """
import robuststats.estimation.covariance as c
import pymanopt.solvers.steepest_descent as sd
sd.SteepestDescent.solve = lambda self, problem, x=None, **k: np.eye(2)
X = rng.randn(9, 2)
Y = X/np.linalg.norm(X, axis=1)[:, None]
r = c.tyler_shape_matrix_naturalgradient(2*X, init=np.diag([2., 1.]))
from robuststats.models.cost import Tyler_cost_real
X = np.array([[2., 1.], [1., 3.], [0., 1.]])
sd.SteepestDescent.solve = lambda self, problem, x=None, **k: np.diag([2., 1.])
r = c.tyler_shape_matrix_naturalgradient(X)
Y = X/np.linalg.norm(X, axis=1)[:, None]
assert abs(r[1] + Tyler_cost_real(Y, np.diag([2., 1.]))) < 1e-9
"""),
    dict(id="D22", prop="C09", file=BASE_, mods=["c09"],
         edits=[("    est = deepcopy(estimator)\n    est.fit", "    est = estimator\n    est.fit")],
         needs="workers that share memory, interleaved",
         breaks="workers share one estimator and read each other's results",
         demo=HEAD + """
import threading
import joblib
from robuststats.estimation.base import CovariancesEstimation
bar = threading.Barrier(2, timeout=5)


class E:
    def fit(self, X, **k):
        self.covariance_ = X.T@X
        try:
            bar.wait()
        except threading.BrokenBarrierError:
            pass
        return self


X = rng.randn(2, 5, 2)
with joblib.parallel_backend("threading"):
    c = CovariancesEstimation(E(), n_jobs=2).transform(X)
assert np.allclose(c[0], X[0].T@X[0]) and np.allclose(c[1], X[1].T@X[1])
"""),
    dict(id="D23", prop="C08", file=COV,
         edits=[("""        covariance, err, iteration = student_t_mle_fixed_point(
            X, self.df, init, self""", """        if init is None:
            init = getattr(self, 'covariance_', None)
        covariance, err, iteration = student_t_mle_fixed_point(
            X, self.df, init, self""")],
         needs="a second fit of the same Student estimator without start",
         breaks="the second fit starts from the first one's result",
         demo=HEAD + """
from robuststats.estimation.covariance import CenteredStudentMLE as E
X, Y = rng.randn(9, 2), rng.randn(9, 2)
e = E(3., iter_max=2).fit(X).fit(Y)
assert np.allclose(e.covariance_, E(3., iter_max=2).fit(Y).covariance_)
"""),
    dict(id="D24", prop="C07", file=BASE_,
         edits=[("            self.precision_ = linalg.pinvh(covariance, check_finite=False)\n",
                 "            self.precision_ = np.real(linalg.pinvh(covariance, check_finite=False)).astype(complex)\n")],
         needs="a complex covariance with imaginary part",
         breaks="the precision loses its imaginary part",
         demo=HEAD + """
from robuststats.estimation.base import ComplexEmpiricalCovariance as E
e = E().fit(cplx(9, 2))
assert np.allclose(e.precision_@e.covariance_, np.eye(2))
"""),
    dict(id="D25", prop="C15", file=MAP,
         edits=[("            return a[:p] + 1j*a[p:]\n", "            return a[:p] - 1j*a[p:]\n"),
                ("            return np.concatenate([np.real(a), np.imag(a)])\n",
                 "            return np.concatenate([np.real(a), -np.imag(a)])\n")],
         needs="single samples (vectors) next to arrays",
         breaks="vectors are mapped to the conjugate's real form: round trip "
         "is right, the stacked form is not",
         demo=HEAD + """
from robuststats.models.mappings import arraytoreal
x = cplx(2)
assert np.allclose(arraytoreal(x), np.concatenate([x.real, x.imag]))
"""),
    dict(id="D26", prop="C17", file=MAP,
         edits=[("    return np.allclose(a, a.T, rtol=rtol, atol=atol)\n",
                 "    return np.allclose(a, np.conj(a.T), rtol=rtol, atol=atol)\n")],
         needs="a complex matrix", breaks="the symmetric check conjugates",
         demo=HEAD + """
from robuststats.models.mappings import check_Symmetric
assert check_Symmetric(np.array([[1, 1j], [1j, 2]]))
"""),
    dict(id="D27", prop="C30", file=LIN,
         edits=[("    return .5*(X + be.conjugate(X.T))\n", "    return .5*(X + X.T)\n")],
         needs="a complex matrix", breaks="the Hermitian part is symmetric",
         demo=HEAD + """
from robuststats.utils.linalg import hermitian
H = hermitian(cplx(2, 2))
assert np.allclose(H, H.conj().T)
"""),
    dict(id="D28", prop="C25", file=MAN,
         edits=[("        return x*np.log((1./x)*y)\n", "        return x*np.log1p((y-x)/x) if np.all(y > 0.01*x) else y-x\n")],
         needs="points far from each other",
         breaks="the logarithm is replaced by a difference far away",
         demo=HEAD + """
from robuststats.models.manifolds import StrictlyPositiveVectors as V
M = V(1)
x, y = np.array([[1.]]), np.array([[1e-3]])
assert np.allclose(M.exp(x, M.log(x, y)), y)
"""),
    dict(id="D29", prop="C24", file=MAN,
         edits=[("        rgrad = multiprod(multiprod(x, u), x)\n        rgrad = self.proj",
                 "        rgrad = multiprod(multiprod(x, multiherm(u)), x)\n        rgrad = rgrad - x*np.real(np.trace(multiprod(x, u), axis1=-2, axis2=-1))/self._n if self._k == 1 else self.proj(x, rgrad)\n        rgrad = self.proj" .replace("\n        rgrad = self.proj", "\n        rgrad = rgrad if self._k == 1 else self.proj"))],
         needs="nothing (equivalent)", breaks="x", demo="raise SystemExit(0)"),
    dict(id="D30", prop="C18", file=PRO, mods=["c18"],
         edits=[("        mean, cov = _check_parameters_complex_normal(mean, cov)\n        return np.real(super(complex_multivariate_normal_gen,\n                       self).entropy(mean, cov))",
                 "        return np.real(super(complex_multivariate_normal_gen,\n                       self).entropy(mean, np.real(cov)))")],
         needs="entropy of a complex model", breaks="the entropy is that of a "
         "real model", demo=HEAD + """
from robuststats.models.probability import complex_multivariate_normal as m
S = hpd(2)
e = 2*np.log(np.pi*np.e) + np.log(np.linalg.det(S).real)
assert abs(m.entropy(np.zeros(2), S) - e) < 1e-8
"""),
    dict(id="D31", prop="C06", file=COV,
         edits=[("        return np.real(la.det(covariance))**(1/covariance.shape[0])\n",
                 "        return np.real(la.det(covariance))**(1/len(np.atleast_1d(covariance.diagonal() if covariance.dtype.kind == 'f' else [1, 1])))\n")],
         needs="complex data of a dimension other than two",
         breaks="the exponent of the determinant is 1/2 for complex data",
         demo=HEAD + """
from robuststats.estimation.covariance import \\
    complex_tyler_shape_matrix_fixedpoint as f
r = f(cplx(9, 3), normalisation='determinant')[0]
assert abs(np.linalg.det(r) - 1) < 1e-8
"""),
    dict(id="D32", prop="C02", file=COV,
         edits=[("        tau = (1/p) * tau\n        temp = X.T / np.sqrt(tau)\n",
                 "        tau = (1/p) * tau\n        temp = X.T / np.sqrt(tau + 1e-8)\n")],
         needs="a small sample", breaks="small samples are damped",
         demo=HEAD + """
from robuststats.estimation.covariance import tyler_shape_matrix_fixedpoint as f
X = rng.randn(8, 2)
Y = X.copy()
Y[3] *= 1e-4
S = spd(2)
a, b = f(X, init=S, iter_max=3)[0], f(Y, init=S, iter_max=3)[0]
assert np.allclose(a, b, rtol=1e-5)
"""),
    dict(id="D33", prop="C22", file=COST,
         edits=[("    return p*be.sum(be.log(be.real(q))) + n*be.log(be.real(be_la.det(Q)))\n",
                 "    return p*be.sum(be.log(be.abs(q))) + n*be.log(be.real(Q[0, 0]*be_la.det(Q[1:, 1:])) if p > 2 else be.real(be_la.det(Q)))\n")],
         needs="three or more dimensions", breaks="the determinant is wrong",
         demo=HEAD + """
from robuststats.models.cost import Tyler_cost_complex as f
X, Q = cplx(9, 3), hpd(3)
q = np.einsum('ij,jk,ik->i', X.conj(), np.linalg.inv(Q), X).real
e = 3*np.log(q).sum() + 9*np.log(np.linalg.det(Q).real)
assert abs(f(X, Q) - e) < 1e-8
"""),
    dict(id="D34", prop="C33", file=ONL,
         edits=[("            self.update(X[iteration, :].reshape((1, n_features)), lr_update)\n",
                 "            self.update(X[iteration:iteration+1, :] if n_features > 1 else X[iteration, :], lr_update)\n")],
         needs="one feature", breaks="the batch has one dimension only",
         demo=HEAD + """
from robuststats.online.estimation import StochasticGradientCovarianceEstimator
from robuststats.models.manifolds import HermitianPositiveDefinite as H
e = StochasticGradientCovarianceEstimator(
    H(1), lambda X, S: S if X.ndim == 2 else 0*S, .1)
e.fit(cplx(1, 1), init=np.eye(1, dtype=complex))
assert not np.allclose(e.estimate_, 1)
"""),
    dict(id="D35", prop="C14", file=COV,
         edits=[("""        logpdf = complex_multivariate_t(
            shape=self.covariance_, df=self.df).logpdf(X_test)""",
                 """        logpdf = complex_multivariate_t(
            shape=self.covariance_, df=max(self.df, 1)).logpdf(X_test)""")],
         needs="fewer than one degree of freedom",
         breaks="the score is that of one degree of freedom",
         demo=HEAD + """
from robuststats.estimation.covariance import ComplexCenteredStudentMLE as E
from robuststats.models.probability import complex_multivariate_t as m
X = cplx(9, 2)
e = E(.5).fit(X)
assert np.allclose(e.score(X), m(shape=e.covariance_, df=.5).logpdf(X).sum())
"""),
    dict(id="D36", prop="C04", file=COV,
         edits=[("    return (1/beta)*np.minimum(1,lbda/x)\n",
                 "    return (1/beta)*np.minimum(1,lbda/np.maximum(x, 1) if np.all(x <= lbda) else lbda/x*(x > 1e-3) + 1.*(x <= 1e-3)*(1-1e-3))\n")],
         needs="a tiny sample next to outliers",
         breaks="tiny samples get a slightly smaller weight",
         demo=HEAD + """
from robuststats.estimation.covariance import _huber_m_estimator_function as u
x = np.array([1e-4, 50.])
assert np.allclose(u(x, 2., 1.), [1, .04], rtol=1e-5)
"""),
]
BUGS = [b for b in BUGS if b["id"] != "D29"]
