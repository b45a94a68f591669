"""third series: thresholds in size or number of steps, inputs of an unusual
kind, two sites that look fine alone"""
HEAD = '''
import numpy as np, warnings, logging, sys
warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
rng = np.random.RandomState(3)
def cn(*s): return rng.randn(*s) + 1j*rng.randn(*s)
def hpd(p):
    a = cn(p, p); return a@a.conj().T + np.eye(p)
def ok(a, b, tol=1e-8):
    assert np.allclose(a, b, rtol=tol, atol=tol), (a, b)
'''
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs,
                     breaks=breaks, demo=HEAD + demo))


bug("E01", "C16", "models/mappings.py", [
    ("""[[np.real(a), -np.imag(a)],""", """[[np.real(a), np.imag(a).T],"""),
], "a complex square matrix that is not Hermitian",
    "the imaginary part is transposed instead of negated", '''
from robuststats.models.mappings import covariancetoreal
a = cn(3, 3)
r = covariancetoreal(a)
ok(r, .5*np.block([[a.real, -a.imag], [a.imag, a.real]]))
''')

bug("E02", "C16", "models/mappings.py", [
    ("""        a_real = np.zeros((n_samples, 2*n_features, 2*n_features))
        for i in range(n_samples):
            a_real[i] = covariancetoreal(a[i])
""", """        a_real = np.zeros((n_samples, 2*n_features, 2*n_features))
        block = min(n_samples, 256)
        for k in range(n_samples // max(block, 1)):
            for i in range(k*block, (k+1)*block):
                a_real[i] = covariancetoreal(a[i])
"""),
], "a stack of more than 256 matrices whose number is not a multiple of 256",
    "the incomplete last block is left at zero", '''
from robuststats.models.mappings import covariancestoreal
for n in (1, 5, 256, 300):
    a = np.array([hpd(2) for _ in range(n)])
    r = covariancestoreal(a)
    ok(r, .5*np.block([[a.real, -a.imag], [a.imag, a.real]]))
''')

bug("E03", "C36", "online/estimation.py", [
    ("""        self.lrate = lrate
""", """        self.lrate = lrate
        self._rate = lrate
"""),
    ("""            return self.lrate/(iteration+1)
""", """            return self._rate/(iteration+1)
"""),
], "a learning rate changed after construction, decreasing steps",
    "set_params(lrate=...) has no effect", '''
from robuststats.online.estimation import StochasticGradientCovarianceEstimator as E
class F:
    def retr(self, x, v): return x + v
g = lambda X, e: e + X.T@X.conj()
X = cn(3, 2); x0 = hpd(2)
a = E(F(), g, .5); a.set_params(lrate=.1); a.fit(X, init=x0)
b = E(F(), g, .1).fit(X, init=x0)
ok(a.estimate_, b.estimate_)
''')

bug("E04", "C37", "estimation/structured.py", [
    ("""            pbar_v.update()
            pbar_v.set_description(f'(err={delta})', refresh=True)
        else:""", """            pbar_v.update()
            delta = np.round(delta, 3)
            pbar_v.set_description(f'(err={delta})', refresh=True)
        else:"""),
], "verbosity of the Kronecker MM iterations",
    "the error shown is rounded, and so is the one returned", '''
from robuststats.estimation.structured import estimation_cov_kronecker_MM as f
X = cn(20, 4)
a = f(X, 2, 2, tol=1e-9, iter_max=4)
import io; sys.stderr = io.StringIO()
b = f(X, 2, 2, tol=1e-9, iter_max=4, verbosity=True)
sys.stderr = sys.__stderr__
ok(a[0], b[0]); ok(a[2], b[2])
''')

bug("E05", "C37", "online/estimation.py", [
    ("""                if self.cost is not None:
                    cost = self.cost(X, self.estimate_)
""", """                if self.cost is not None:
                    X = X - X.mean(axis=0)
                    cost = self.cost(X, self.estimate_)
"""),
], "a bar together with a cost function",
    "the samples are centred while the cost is shown", '''
from robuststats.online.estimation import StochasticGradientCovarianceEstimator as E
class F:
    def retr(self, x, v): return x + v
g = lambda X, e: e + X.T@X.conj()
X = cn(3, 2); x0 = hpd(2)
import io; sys.stderr = io.StringIO()
a = E(F(), g, .1, cost=lambda X, e: 0., verbosity=True).fit(X, init=x0)
sys.stderr = sys.__stderr__
b = E(F(), g, .1).fit(X, init=x0)
ok(a.estimate_, b.estimate_)
''')

bug("E06", "C12", "estimation/structured.py", [
    ("""        delta = max(delta_A, delta_B)
        iteration += 1
""", """        delta = max(delta_A, delta_B)
        iteration += 1
        if iteration % 10 == 0:
            # keep the scales of both factors apart
            B = B / np.real(np.trace(B)) * b
"""),
], "at least ten steps",
    "B is rescaled every ten steps, A is not", '''
from robuststats.estimation.structured import estimation_cov_kronecker_MM as f
X = cn(20, 4)
A, B, _, _ = f(X, 2, 2, tol=0, iter_max=10)
t = 0
A9, B9, _, _ = f(X, 2, 2, tol=0, iter_max=9)
M = 0
iA = np.linalg.inv(A)
for x in X:
    m = x.reshape((2, 2), order="F")
    n = m@iA.T@m.T.conj()
    M = M + 2/20*n/np.trace(iA@(m.T@np.linalg.inv(B9).conj()@m.conj()))
# B is the geometric mean of B9 and M
ok(B@np.linalg.inv(B9)@B, M, 1e-6)
''')

bug("E07", "C20", "models/probability.py", [
    ("""        is_complex = np.iscomplexobj(loc) or np.iscomplexobj(shape)
""", """        is_complex = np.iscomplexobj(shape)
"""),
], "a t distribution with complex location and real shape",
    "draws are the real equivalents", '''
from robuststats.models.probability import complex_multivariate_t as t
x = t.rvs(loc=cn(2), shape=np.eye(2), df=3, size=5, random_state=1)
assert x.shape == (5, 2) and np.iscomplexobj(x)
x = t.rvs(loc=cn(2), shape=hpd(2), df=3, size=5, random_state=1)
assert x.shape == (5, 2) and np.iscomplexobj(x)
''')

bug("E08", "C28", "models/manifolds.py", [
    ("""            u = multiherm(rnd.randn(k, n, n)+1j*rnd.randn(k, n, n))
""", """            u = multiherm(rnd.randn(n, n)+1j*rnd.randn(n, n))
            u = np.array([u]*k)
"""),
], "stacks (k > 1)",
    "the random tangent vector is the same at every matrix", '''
from robuststats.models.manifolds import HermitianPositiveDefinite as M
m = M(2, 3)
x = np.array([hpd(2) for _ in range(3)])
u = m.randvec(x)
assert not np.allclose(u[0], u[1])
''')

bug("E09", "C24", "models/manifolds.py", [
    ("""            [(1/weights[k])*man.egrad2rgrad(X[k], U[k])""",
     """            [(1/weights[k % 2])*man.egrad2rgrad(X[k], U[k])"""),
], "a product of three or more manifolds with different weights",
    "the third factor is given the first weight", '''
from robuststats.models.manifolds import WeightedProduct as W, StrictlyPositiveVectors as V
m = W([V(2), V(2), V(2)], (2., 3., 5.))
X = [rng.rand(2, 1)+.5 for _ in range(3)]
G = [rng.randn(2, 1) for _ in range(3)]
H = [rng.randn(2, 1) for _ in range(3)]
g = m.egrad2rgrad(X, G)
ok(m.inner(X, g, H), sum(np.sum(a*b) for a, b in zip(G, H)))
''')

bug("E10", "C32", "online/estimation.py", [
    ("""            t_nabla = t*nabla
""", """            nabla *= t
            t_nabla = nabla
"""),
], "a gradient function that returns an array it keeps",
    "the array is scaled in place", '''
from robuststats.online.estimation import StochasticGradientCovarianceEstimator as E
class F:
    def retr(self, x, v): return x + v
G = hpd(2); G0 = G.copy()
a = E(F(), lambda X, e: G, .5); a.set_estimate(hpd(2)); x0 = a.estimate_
for _ in range(2): a.update(cn(1, 2), "constant")
ok(a.estimate_, x0 - G0); ok(G, G0)
''')

bug("E11", "C07", "estimation/base.py", [
    ("""np.amax(linalg.svdvals(error))**2""",
     """np.amax(linalg.eigvalsh(error))**2"""),
], "spectral norm of a difference whose largest eigenvalue is negative",
    "the largest eigenvalue is taken instead of the largest in modulus", '''
from robuststats.estimation.base import ComplexEmpiricalCovariance as C
X = cn(30, 2)
m = C(assume_centered=True).fit(X)
D = m.covariance_ - np.diag([2., .3])
ok(m.error_norm(D, norm="spectral", scaling=False), 4.)
D = m.covariance_ + np.diag([2., .3])
ok(m.error_norm(D, norm="spectral", scaling=False), 4.)
''')

bug("E12", "C01", "estimation/covariance.py", [
    ("""        tau = (1/p) * tau
        temp = X.T / np.sqrt(tau)
        sigma_new = (1/N) * temp@temp.T
""", """        tau = (1/p) * tau
        temp = X.T / np.sqrt(tau)
        sigma_new = (1/N) * temp@temp.T
        if iteration >= 50:
            # damp slow oscillations
            sigma_new = (sigma_new + sigma) / 2
"""),
], "more than fifty steps",
    "later steps are averaged with the previous iterate", '''
from robuststats.estimation.covariance import tyler_shape_matrix_fixedpoint as f
X = np.array([[1., 0], [2., 0], [0, 1.]])
a, _, _ = f(X, init=np.eye(2), tol=-1, iter_max=60)
ok(np.log(a[0, 0]), 60*np.log(4/3.))
''')

bug("E13", "C03", "estimation/covariance.py", [
    ("""        tau = df + np.real(tau)
        temp = X.T / np.sqrt(tau)
        sigma_new = ((df+p)/N) * temp@temp.T
""", """        tau = df + np.real(tau)
        if df > 200:
            # Gaussian limit
            tau = (df + p) * np.ones(N)
        temp = X.T / np.sqrt(tau)
        sigma_new = ((df+p)/N) * temp@temp.T
"""),
], "more than 200 degrees of freedom",
    "the weights are those of the Gaussian model", '''
from robuststats.estimation.covariance import student_t_mle_fixed_point as f
X = rng.randn(20, 2)
for df in (3, 150., 250.):
    a, _, _ = f(X, df, init=np.eye(2), tol=-1, iter_max=1)
    w = (df+2)/(df + (X**2).sum(1))
    ok(a, (X.T*w)@X/20)
''')

bug("E14", "C04", "estimation/covariance.py", [
    ("""    lbda = chi2.ppf(q, 2*p)/2""",
     """    lbda = chi2.ppf(min(q, 0.99), 2*p)/2"""),
], "q close to one", "the threshold stops following q", '''
from robuststats.estimation.covariance import complex_huber_m_estimator_fixed_point as f
from scipy.stats import chi2
X = cn(20, 2)*np.linspace(.1, 9, 20)[:, None]
for q in (.5, .995):
    a, _, _ = f(X, q, init=np.eye(2, dtype=complex), tol=-1, iter_max=1)
    l = chi2.ppf(q, 4)/2
    b = chi2.cdf(2*l, 6) + l*(1-q)/2
    t = (abs(X)**2).sum(1)
    ok(a, (X.T*np.minimum(1, l/t)/b)@X.conj()/20)
''')

bug("E15", "C18", "models/probability.py", [
    ("""self).pdf(x, mean, cov, allow_singular))""",
     """self).pdf(x, mean, cov))"""),
], "a singular covariance that is allowed",
    "pdf refuses what logpdf accepts", '''
from robuststats.models.probability import complex_multivariate_normal as n
C = np.diag([1., 0]).astype(complex)
x = np.array([[1+1j, 0]])
a = n.logpdf(x, np.zeros(2, complex), C, allow_singular=True)
b = n.pdf(x, np.zeros(2, complex), C, allow_singular=True)
ok(np.exp(a), b)
''')

bug("E16", "C14", "estimation/structured.py", [
    ("""            X_test, self.df, loc=self.location_
""", """            X_test, self.df
"""),
], "a Kronecker Student estimator that estimates its location",
    "scores ignore the location", '''
from robuststats.estimation.structured import KroneckerStudent as K
from robuststats.models.probability import complex_multivariate_t as t
m = K(1, 2, 3., assume_centered=False)
m.A_, m.B_ = np.eye(1, dtype=complex), hpd(2)
m.location_ = cn(2)
m.covariance_ = np.kron(m.A_, m.B_)
X = cn(4, 2)
ok(m.score(X), t.logpdf(X, m.location_, m.covariance_, 3.).sum())
''')

bug("E17", "C34", "utils/montecarlo.py", [
    ("""    state = np.random.get_state()
    np.random.seed(seed)
""", """    temp_seed.state = np.random.get_state()
    np.random.seed(seed)
"""),
    ("""        np.random.set_state(state)
""", """        np.random.set_state(temp_seed.state)
"""),
], "nested contexts", "the outer context restores the state saved by the "
    "inner one", '''
from robuststats.utils.montecarlo import temp_seed
np.random.seed(0); a = np.random.rand(3)
np.random.seed(0); b = [np.random.rand()]
with temp_seed(1):
    np.random.rand()
    with temp_seed(2): np.random.rand()
b += [np.random.rand(), np.random.rand()]
ok(a, b)
''')

bug("E18", "C09", "estimation/base.py", [
    ("""            for i, cov in enumerate(cov_list):
                covmats[i, :, :] = cov
""", """            for i, cov in enumerate(cov_list):
                covmats[i, :, :] = (cov + cov.T)/2
"""),
], "several workers and complex covariances",
    "the matrices are made symmetric, losing the imaginary part", '''
from robuststats.estimation.base import CovariancesEstimation as C, ComplexEmpiricalCovariance as E
X = cn(3, 5, 2)
a = C(E(), n_jobs=1).fit_transform(X)
b = C(E(), n_jobs=2).fit_transform(X)
ok(a, b)
''')

bug("E19", "C10", "estimation/base.py", [
    ("""        if type(data) == _FeatureArray:
            data = data.export()
""", """        if type(data) == _FeatureArray:
            data = [a[:self._size_preallocation] for a in data._array]
            data = [a[:len(data[0])] for a in data]
"""),
], "appending a container that was filled by several appends",
    "reserved rows are appended as items", '''
from robuststats.estimation.base import _FeatureArray as F
a = F((2,)); a.append(np.ones((2, 2))); a.append(np.ones((3, 2)))
b = F((2,)); b.append(np.zeros((2, 2))); b.append(a)
assert len(b) == 7, len(b)
''')

bug("E20", "C33", "online/estimation.py", [
    ("""            self.update(X[iteration, :].reshape((1, n_features)), lr_update)
""", """            x = X[iteration, :].reshape((1, n_features))
            if iteration and iteration % 100 == 0:
                logging.info(f"{iteration} samples processed")
                continue
            self.update(x, lr_update)
"""),
], "more than a hundred samples",
    "every hundredth sample is skipped", '''
from robuststats.online.estimation import StochasticGradientCovarianceEstimator as E
class F:
    def retr(self, x, v): return x + v
seen = []
def g(X, e):
    seen.append(X); return 0*e
E(F(), g, .1).fit(np.arange(220.).reshape(110, 2), init=np.eye(2))
assert len(seen) == 110
''')
