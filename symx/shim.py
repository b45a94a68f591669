"""Loads the real robuststats modules and, during symbolic runs only, swaps
the numerical libraries in their globals for symbolic counterparts."""
import contextlib
import copy
import importlib
import inspect
import pkgutil
import sys
import types

import numpy as np
import scipy
import scipy.linalg
import scipy.special
import scipy.stats
import scipy.stats._multivariate as smv
import sklearn
import sklearn.base
import sklearn.metrics
import sklearn.covariance._empirical_covariance as skcov
import sklearn.utils
import math
import sklearn.utils.extmath
import sklearn.utils.validation
import joblib

from . import arr as A
from . import poly as P
from .arr import S, SymArray, is_sym
from .poly import Unsupported

REPO = "/repo"


# ------------------------------------------------------------------ contracts
def pi():
    v = P.K.byname.get("pi")
    if v is None:
        v = P.K.new("pi", kind="uf", positive=True, meta=("pi", ()))
    return S(P.var(v), None, "f")


P.UF_EVAL["pi"] = lambda: np.pi
P.UF_EVAL["gammaln"] = lambda x: float(scipy.special.gammaln(x))
P.UF_EVAL["psi"] = lambda x: float(scipy.special.psi(x))
P.UF_EVAL["chi2ppf"] = lambda q, d: float(scipy.stats.chi2.ppf(q, d))
P.UF_EVAL["chi2cdf"] = lambda x, d: float(scipy.stats.chi2.cdf(x, d))


def uf1(name, real):
    def f(x, *a, **k):
        if isinstance(x, SymArray):
            return A.umap(lambda s: S(P.uf_atom(name, [A.S_(s).re]), None,
                                      "f"), x, "f")
        c = A.S_(x).re.const()
        if c is not None and real is not None:
            return A.S_(float(real(float(c))))
        return S(P.uf_atom(name, [A.S_(x).re]), None, "f")
    return f


class PiModule:
    pass


class Chi2Stub:
    """chi-square distribution: ppf positive, cdf in (0,1), cdf(ppf(q)) = q"""
    @staticmethod
    def ppf(q, df, *a, **k):
        c = A.S_(q).re
        return S(P.uf_atom("chi2ppf", [c, A.S_(df).re], positive=True),
                 None, "f")

    @staticmethod
    def cdf(x, df, *a, **k):
        x, df = A.S_(x).re, A.S_(df).re
        if len(x.num) == 1 and not x.den:
            (m, c), = x.num.items()
            es = P.exps(m)
            if c == 1 and len(es) == 1 and es[0][1] == 1:
                v = P.K.vars[es[0][0]]
                if v.kind == "uf" and v.meta[0] == "chi2ppf" and \
                        P.is_equal(v.meta[1][1], df):
                    return S(v.meta[1][0], None, "f")
        return S(P.uf_atom("chi2cdf", [x, df], positive=True), None, "f")

    @staticmethod
    def sf(x, df, *a, **k):
        return 1 - Chi2Stub.cdf(x, df)

    @staticmethod
    def isf(q, df, *a, **k):
        return Chi2Stub.ppf(1 - A.S_(q), df)

    def __init__(self, df, *a, **k):
        if a or k:
            raise Unsupported("shifted or scaled chi-square distribution")
        # a frozen distribution
        self.ppf = lambda q: Chi2Stub.ppf(q, df)
        self.cdf = lambda x: Chi2Stub.cdf(x, df)
        self.sf = lambda x: Chi2Stub.sf(x, df)
        self.isf = lambda q: Chi2Stub.isf(q, df)


# the same functions under their special-function names
SPECIAL = {
    "chdtr": lambda d, x: Chi2Stub.cdf(x, d),
    "chdtrc": lambda d, x: Chi2Stub.sf(x, d),
    "chdtri": lambda d, q: Chi2Stub.isf(q, d),
    "gammainc": lambda a, x: Chi2Stub.cdf(2 * A.S_(x), 2 * A.S_(a)),
    "gammaincc": lambda a, x: Chi2Stub.sf(2 * A.S_(x), 2 * A.S_(a)),
    "gammaincinv": lambda a, q: Chi2Stub.ppf(q, 2 * A.S_(a)) / 2,
    "gammainccinv": lambda a, q: Chi2Stub.isf(q, 2 * A.S_(a)) / 2,
}


class PSDStub:
    """scipy.stats._multivariate._PSD for a full rank matrix or one with
    full rank but for vanishing rows"""
    def __init__(self, M, cond=None, rcond=None, lower=True,
                 check_finite=True, allow_singular=True):
        M = A.mk_noc(M)
        if M.kind == "c":
            # scipy.linalg.eigh would accept it; the callers cast to float
            raise Unsupported("complex PSD")
        self._M = M
        self.rank = M.shape[0]
        self._allow_singular = allow_singular
        o = M.obj()
        n = M.shape[0]
        nz = [i for i in range(n) if not all(
            o[i, j].is_zero() and o[j, i].is_zero() for j in range(n))]
        self._null = [i for i in range(n) if i not in nz]
        if self._null:
            # coordinates without variance
            self.rank = len(nz)
            if not allow_singular:
                raise np.linalg.LinAlgError(
                    "When `allow_singular is False`, the input matrix must "
                    "be symmetric positive definite.")
            R = M[np.ix_(nz, nz)]
            self.U = A.mk(np.zeros((n, n)))
            self.U[np.ix_(nz, nz)] = A.l_inv(A.l_cholesky(R)).T
            self.log_pdet = A.l_det(R).log()
            self.eps = 0
            return
        L = A.l_cholesky(M)
        self.U = A.l_inv(L).T
        self.log_pdet = A.l_det(M).log()
        self.eps = 0

    def _support_mask(self, x):
        m = np.ones(x.shape[:-1], dtype=bool)
        if self._null:
            for i in np.ndindex(*m.shape):
                m[i] = all(bool(x[i + (j,)] == 0) for j in self._null)
        return m

    @property
    def pinv(self):
        if self._null:
            return self.U @ self.U.T
        return A.l_inv(self._M)


def mvncdf(self, x, mean, cov, maxpts, abseps, releps, lower_limit=None):
    x = A.mk_noc(x)
    args = [A.S_(e).re for e in A.mk_noc(mean).obj().reshape(-1)] + \
        [A.S_(e).re for e in A.mk_noc(cov).obj().reshape(-1)]
    out = []
    rows = x.obj().reshape(-1, x.shape[-1])
    for r in rows:
        out.append(S(P.uf_atom("mvncdf", [A.S_(e).re for e in r] + args,
                               positive=True), None, "f"))
    return smv._squeeze_output(A.mk(out).reshape(x.shape[:-1]))


def _mvncdf_eval(*a):
    # n + n + n*n arguments
    k = len(a)
    n = 1
    while n + n + n * n < k:
        n += 1
    a = np.array(a)
    return float(scipy.stats.multivariate_normal(
        a[n:2 * n], a[2 * n:].reshape(n, n)).cdf(a[:n]))


P.UF_EVAL["mvncdf"] = _mvncdf_eval


def sq2(M):
    """principal square root of a 2x2 matrix with positive trace/det"""
    o = A.named(M.obj())
    M = A.mkobj(o, M.kind)
    d = A.det_obj(o)
    t = o[0, 0] + o[1, 1]
    for z in (d, t):
        if z.kind == "c" and not z.im.is_zero():
            raise Unsupported("sqrtm of a general complex matrix")
    w = d.real.sqrt()
    n = (t.real + 2 * w).sqrt()
    I = A.mk(np.eye(2), M.kind)
    return (M + w * I) / n


def basis_diag(M):
    """V, d, V^-1 with M = V diag(d) V^-1 from the known bases, or None"""
    ctx = A.CTX[0]
    o = M.obj()
    n = M.shape[0]
    if all(o[i, j].is_zero() for i in range(n) for j in range(n) if i != j):
        return A.mk(np.eye(n), M.kind), [o[i, i] for i in range(n)], \
            A.mk(np.eye(n), M.kind)
    for B in reversed(ctx.bases + getattr(ctx, "simbases", [])):
        if B.shape != o.shape:
            continue
        Bm = A.mkobj(B, B[0, 0].kind)
        iB = A.l_inv(Bm)
        D = A.f_matmul(A.f_matmul(iB, M), Bm).obj()
        if all(D[i, j].zero_deep() for i in range(n) for j in range(n)
               if i != j):
            return Bm, [D[i, i] for i in range(n)], iB
    return None


def sp_fun(f, closed2=None):
    def g(M, disp=True, **k):
        if not is_sym(M):
            M = A.mk(M)
        M = A.mk_noc(M)
        if M.kind in "bi":
            M = M.astype(float)
        b = basis_diag(M)
        if b is None:
            if closed2 is not None and M.shape == (2, 2):
                return closed2(M)
            raise Unsupported("matrix function of a general matrix")
        V, d, iV = b
        r = [f(x) for x in d]
        D = A.mk(np.zeros((len(d), len(d))), M.kind)
        for i, x in enumerate(r):
            D[i, i] = x
        return A.f_matmul(A.f_matmul(V, D), iV)
    return g


def sp_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    L = A.l_cholesky(a)
    return L if lower else L.conj().T


def sp_eigh(a, b=None, *, lower=True, eigvals_only=False, **k):
    if b is not None:
        raise Unsupported("generalised eigh")
    w, v = A.l_eigh(a)
    return w if eigvals_only else (w, v)


def sp_toeplitz(c, r=None):
    c = A.mk_noc(c).reshape(-1)
    r = c.conj() if r is None else A.mk_noc(r).reshape(-1)
    n, m = len(c), len(r)
    w = np.empty((n, m), dtype=object)
    co, ro = c.obj(), r.obj()
    for i in range(n):
        for j in range(m):
            w[i, j] = co[i - j] if i >= j else ro[j - i]
    return A.wrap(w)


def sp_block_diag(*arrs):
    arrs = [A.mk_noc(a) for a in arrs]
    n = sum(a.shape[0] for a in arrs)
    m = sum(a.shape[1] for a in arrs)
    w = A.full((n, m), 0, A.kmax(*[a.kind for a in arrs]))
    i = j = 0
    for a in arrs:
        w[i:i + a.shape[0], j:j + a.shape[1]] = a
        i += a.shape[0]
        j += a.shape[1]
    return w


def sp_solve(a, b, **k):
    return A.l_solve(a, b)


def sp_pinvh(a, *args, **k):
    return A.l_inv(a)


def guard(stub, real):
    """stub on symbolic arguments, library otherwise"""
    def g(*a, **k):
        if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
            return stub(*a, **k)
        return real(*a, **k)
    g.__name__ = getattr(real, "__name__", "f")
    return g


# --------------------------------------------------------------------- sklearn
def check_array_stub(array, *a, **k):
    if not is_sym(array):
        return sklearn.utils.validation.check_array(array, *a, **k)
    arr_ = A.mk_noc(array)
    if arr_.kind == "c":
        raise ValueError("Complex data not supported")
    if k.get("ensure_2d", True):
        if arr_.ndim == 0:
            raise ValueError("Expected 2D array, got scalar array instead")
        if arr_.ndim == 1:
            raise ValueError("Expected 2D array, got 1D array instead")
        if not k.get("allow_nd", False) and arr_.ndim >= 3:
            raise ValueError("Found array with dim %d" % arr_.ndim)
        if arr_.shape[0] < 1 or arr_.shape[1] < 1:
            raise ValueError("Found array with 0 sample(s)")
    if k.get("copy"):
        return arr_.copy()
    return arr_


_REAL_VALIDATE = sklearn.base.BaseEstimator._validate_data


def validate_data_stub(self, X="no_validation", y="no_validation",
                       reset=True, validate_separately=False,
                       cast_to_ndarray=True, **kw):
    if not is_sym(X):
        return _REAL_VALIDATE(self, X, y, reset, validate_separately,
                              cast_to_ndarray, **kw)
    X = check_array_stub(X, **kw)
    if reset:
        self.n_features_in_ = X.shape[1]
    elif X.shape[1] != getattr(self, "n_features_in_", X.shape[1]):
        raise ValueError("X has %d features" % X.shape[1])
    return X


def fast_logdet_stub(M):
    s, l = A.l_slogdet(M)
    return l


def pairwise_distances_stub(X, Y=None, metric="euclidean", **k):
    """contract of sklearn.metrics.pairwise_distances: Mahalanobis"""
    if metric != "mahalanobis" or "VI" not in k:
        raise Unsupported("pairwise_distances " + str(metric))
    X, Y = A.mk_noc(X), A.mk_noc(X if Y is None else Y)
    VI = A.mk_noc(k["VI"])
    out = A.mk(np.zeros((X.shape[0], Y.shape[0])))
    for i in range(X.shape[0]):
        for j in range(Y.shape[0]):
            d = (X[i] - Y[j]).reshape(1, -1)
            out[i, j] = (d @ VI @ d.T)[0, 0].sqrt()
    return out


class ParallelStub:
    """joblib.Parallel.  Processes: every task runs on its own copy of its
    arguments.  Threads: tasks share their arguments and a harness estimator
    may let the next task run at its preemption points.  Results come in task
    order."""
    threads = False
    pending = []

    def __init__(self, n_jobs=None, *a, **k):
        self.n_jobs = n_jobs

    @classmethod
    def preempt(cls):
        """the next waiting task runs here, to its end"""
        if cls.pending:
            cls.pending.pop(0)()

    def __call__(self, it):
        if not self.threads or self.n_jobs == 1:
            out = []
            for f, a, k in it:
                if self.n_jobs != 1:
                    a, k = copy.deepcopy((a, k))
                r = f(*a, **k)
                out.append(r if self.n_jobs == 1 else copy.deepcopy(r))
            return out
        out = {}
        todo = []
        for n, (f, a, k) in enumerate(it):
            def task(n=n, f=f, a=a, k=k):
                out[n] = f(*a, **k)
            todo.append(task)
        saved = ParallelStub.pending
        ParallelStub.pending = todo
        try:
            while ParallelStub.pending:
                ParallelStub.pending.pop(0)()
        finally:
            ParallelStub.pending = saved
        return [out[n] for n in sorted(out)]


# ---------------------------------------------------------------------- proxies
class NDMeta(type):
    def __eq__(cls, o):
        return o in (np.ndarray, SymArray) if not isinstance(o, NDMeta) \
            else True

    def __ne__(cls, o):
        return not cls == o
    __hash__ = type.__hash__

    def __instancecheck__(cls, o):
        return isinstance(o, np.ndarray)

    def __subclasscheck__(cls, o):
        return issubclass(o, np.ndarray)

    def __call__(cls, *a, **k):
        return np.ndarray(*a, **k)


class NDA(metaclass=NDMeta):
    pass


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        o = self.__dict__["_over"]
        if name in o:
            v = o[name]
            return v() if isinstance(v, Lazy) else v
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        v = getattr(self.__dict__["_real"], name)
        if isinstance(v, types.ModuleType):
            v = PROXIES.get(id(v), v)
        else:
            v = lifted(v)
        c[name] = v
        return v


class Lazy:
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


def lifted(v):
    """numpy functions that also accept nested lists of symbols"""
    if isinstance(v, np.ufunc):
        return v
    if not callable(v) or isinstance(v, type):
        return v
    known = False
    try:
        known = v in A.FUN or v in A.STRUCT
    except TypeError:
        return v
    if known:
        def g(*a, **k):
            if any(is_sym(x) for x in a) or any(
                    is_sym(x) for x in k.values()):
                return A.do_function(v, a, k)
            return v(*a, **k)
        g.__name__ = v.__name__
        return g
    return v


def np_array(x, dtype=None, *, copy=True, order="K", subok=False, ndmin=0,
             like=None):
    if not is_sym(x) and not isinstance(x, SymArray):
        if dtype is None:
            return np.array(x, copy=copy, order=order, subok=subok,
                            ndmin=ndmin)
        r = np.array(x, dtype=dtype, copy=copy, order=order, ndmin=ndmin)
        return r
    kind = None if dtype is None else A.kind_of_dtype(dtype)
    if dtype is not None and A.mk_noc(x).kind == "c" and kind in ("f", "i") \
            and not isinstance(x, SymArray):
        raise TypeError("can't convert complex to float")
    r = A.mk(x, kind)
    while r.ndim < ndmin:
        r = r[None]
    return r


def np_asarray(x, dtype=None, order=None, *, like=None):
    if isinstance(x, SymArray):
        kind = None if dtype is None else A.kind_of_dtype(dtype)
        if kind is None or kind == x.kind:
            return x
        return x.astype(dtype)
    return np_array(x, dtype)


def np_full(shape, v, dtype=None, order="C"):
    s = to_shape(shape)
    if is_sym(v) and A.mk_noc(v).ndim:
        r = A.full(s, 0, A.kind_of_dtype(dtype) if dtype is not None
                   else A.mk_noc(v).kind)
        r[...] = v
        return r
    k = A.kind_of_dtype(dtype) if dtype is not None else A.elem_kind(v)
    return A.full(s, v, k)


def to_shape(s):
    if isinstance(s, (int, np.integer, S)):
        return (s.__index__(),)
    return tuple(x.__index__() for x in s)


def creator(const):
    def g(shape, dtype=float, order="C", like=None):
        if dtype is None:
            dtype = float
        if np.dtype(dtype).kind in "SUOM":
            return np.full(shape, const, dtype=dtype)
        return A.full(to_shape(shape), const, A.kind_of_dtype(dtype))
    return g


def np_eye(N, M=None, k=0, dtype=float, order="C"):
    if isinstance(N, S):
        N = N.__index__()
    return A.mk(np.eye(N, M, k), A.kind_of_dtype(dtype or float))


def np_identity(n, dtype=None):
    return np_eye(n, dtype=dtype or float)


def exact(uf):
    """ufunc applied exactly to concrete constants"""
    def g(x, *a, **k):
        if not is_sym(x) and not isinstance(x, SymArray):
            if type(x).__name__.endswith("Box"):
                return uf(x, *a, **k)
            x = A.mk(x) if isinstance(x, (np.ndarray, list, tuple)) \
                else A.S_(x)
        return uf(x, *a, **k)
    g.__name__ = uf.__name__
    return g


def np_power(x, y, *a, **k):
    if is_sym(x) or is_sym(y):
        return np.power(x, y)
    return np.power(x, y, *a, **k)


def np_round(a, decimals=0, out=None):
    if not is_sym(a):
        return np.round(a, decimals)
    a = A.mk_noc(a)

    def f(s):
        s = A.S_(s)
        if P.all_vars(s.re) and any(P.K.vars[i].kind == "base"
                                    for i in P.all_vars(s.re)):
            raise Unsupported("rounding of a symbolic value")
        return S(P.rf(int(round(P.evalf(s.re, {})))), None, s.kind)
    return A.unwrap0(A.umap(f, a, a.kind))


def np_isscalar(x):
    return isinstance(x, S) or np.isscalar(x)


NP_OVER = {
    "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray,
    "ascontiguousarray": np_asarray, "asfortranarray": np_asarray,
    "asarray_chkfinite": np_asarray,
    "zeros": creator(0), "ones": creator(1), "empty": creator(0),
    "full": np_full, "eye": np_eye, "identity": np_identity,
    "sqrt": exact(np.sqrt), "log": exact(np.log), "exp": exact(np.exp),
    "pi": Lazy(pi), "ndarray": NDA, "round": np_round, "round_": np_round,
    "around": np_round, "rint": np_round, "isscalar": np_isscalar,
    "iterable": lambda x: False if isinstance(x, S) else np.iterable(x),
    "complex": complex, "float": float, "int": int, "bool": bool,
}
import warnings as _w
with _w.catch_warnings():
    _w.simplefilter("ignore")
    PROXIES = {}

SPLA_OVER = {
    "sqrtm": sp_fun(lambda x: x.sqrt(), sq2),
    "logm": sp_fun(lambda x: x.log()),
    "expm": sp_fun(lambda x: x.exp()),
    "inv": guard(A.l_inv, scipy.linalg.inv),
    "det": guard(A.l_det, scipy.linalg.det),
    "solve": guard(sp_solve, scipy.linalg.solve),
    "norm": guard(A.l_norm, scipy.linalg.norm),
    "eigh": guard(sp_eigh, scipy.linalg.eigh),
    "eigvalsh": guard(A.l_eigvalsh, scipy.linalg.eigvalsh),
    "cholesky": guard(sp_cholesky, scipy.linalg.cholesky),
    "pinvh": guard(sp_pinvh, scipy.linalg.pinvh),
    "pinv": guard(sp_pinvh, scipy.linalg.pinv),
    "toeplitz": guard(sp_toeplitz, scipy.linalg.toeplitz),
    "block_diag": guard(sp_block_diag, scipy.linalg.block_diag),
    "kron": guard(A.f_kron, np.kron),
    "svdvals": guard(A.l_svdvals, scipy.linalg.svdvals),
}


class RandomStub(types.ModuleType):
    """generator contract: every draw is an arbitrary value of its support.
    Draws are named by call order, so that a replay can dictate them."""
    def __init__(self):
        super().__init__("numpy.random")

    def __getattr__(self, name):
        gen = RandomStub.GEN[0]
        if gen is not None and hasattr(gen, name):
            return getattr(gen, name)
        if name in DRAWS:
            return lambda *a, **k: DRAWS[name](RAND[0], *a, **k)
        return getattr(np.random, name)
    GEN = [None]


class AbstractGenerator:
    """numpy's global generator as a state machine: seeding, drawing and
    saving/restoring act on its four components (key, position, whether a
    normal number is kept for the next draw, and that number); a draw is a
    function of them"""
    def __init__(self, ctx):
        self.state = tuple(ctx.real("rng_" + n).re
                           for n in ("key", "pos", "has", "kept"))

    @property
    def mtrand(self):
        return types.SimpleNamespace(_rand=self)

    def get_state(self, legacy=True):
        if not legacy:
            return {"bit_generator": "MT19937",
                    "state": {"key": self.state[0], "pos": self.state[1]},
                    "has_gauss": self.state[2], "gauss": self.state[3]}
        return ("MT19937",) + self.state

    def set_state(self, state):
        if isinstance(state, dict):
            state = ("MT19937", state["state"]["key"], state["state"]["pos"],
                     state.get("has_gauss", 0), state.get("gauss", 0.))
        if len(state) not in (3, 5) or state[0] != "MT19937":
            raise ValueError("state")
        st = tuple(state[1:])
        if len(st) == 2:
            st += (P.rf(0), P.rf(0))
        self.state = st

    def seed(self, seed=None):
        if seed is not None and (seed < 0 or seed > 2 ** 32 - 1):
            raise ValueError("Seed must be between 0 and 2**32 - 1")
        k = P.uf_atom("rng_seed", [A.S_(seed).re]) if seed is not None \
            else P.uf_atom("rng_entropy", list(self.state))
        self.state = (k, P.rf(624), P.rf(0), P.rf(0))

    def _draw(self, what, *a):
        s = list(self.state)
        if what == "rand":      # leaves the kept normal number alone
            v = P.uf_atom("rng_rand", s[:2])
            self.state = (P.uf_atom("rng_nextkey", s[:2]),
                          P.uf_atom("rng_nextpos", s[:2]), s[2], s[3])
        else:
            v = P.uf_atom("rng_randn", s)
            self.state = tuple(P.uf_atom("rng_n" + n, s)
                               for n in ("key", "pos", "has", "kept"))
        return S(v, None, "f")

    def _fill(self, what, shape):
        if not shape:
            return self._draw(what)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = self._draw(what)
        return A.mk(o)

    def rand(self, *shape):
        return self._fill("rand", shape)

    def randn(self, *shape):
        return self._fill("randn", shape)


def _rng_hash(k):
    """any evaluation of the uninterpreted functions above: injective enough
    for witnesses"""
    def f(*xs):
        v = 0.
        for j, x in enumerate(xs):
            v += np.sin(x * (12.9898 + 3.77 * j) + k * 78.233) * 43758.5453
        return float(v - np.floor(v))
    return f


for _k, _n in enumerate(("seed", "entropy", "rand", "randn", "nextkey",
                         "nextpos", "nkey", "npos", "nhas", "nkept")):
    P.UF_EVAL["rng_" + _n] = _rng_hash(_k + 1)


RAND = [None]


class Rand:
    """draw recorder shared by both modes"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.log = []
        self.names = []      # (kind, input names, params) of every draw
        self.states = []     # what every draw of a generator object came from

    nonzero = False

    def fresh(self, shape, lo=None, hi=None, pos=False, what="randn",
              params=()):
        self.n += 1
        if shape is None:
            shape = ()
        if isinstance(shape, (int, np.integer)):
            shape = (shape,)
        shape = tuple(int(s) for s in shape)
        nm = "%s%d" % (what, self.n)
        self.names.append((what, [nm + "".join("_%d" % j for j in i)
                                  for i in np.ndindex(*shape)], params))
        if shape == ():
            r = self.ctx.real("%s%d" % (what, self.n), lo=lo, hi=hi, pos=pos)
        else:
            r = self.ctx.reals("%s%d" % (what, self.n), shape, lo=lo, hi=hi,
                               pos=pos)
        self.log.append((what, shape, params, r))
        if self.nonzero and not pos:
            # holds almost surely
            for i in np.ndindex(*shape):
                e = r if shape == () else r[i]
                self.ctx.assume(e * e > 0 if self.ctx.sym
                                else bool(e != 0))
        return r


def d_randn(R, *shape):
    return R.fresh(shape, what="randn")


def d_normal(R, loc=0.0, scale=1.0, size=None):
    return loc + scale * R.fresh(size, what="randn")


def d_stdnormal(R, size=None):
    return R.fresh(size, what="randn")


def d_rand(R, *shape):
    return R.fresh(shape, lo=0.05, hi=0.95, pos=True, what="rand")


def d_uniform(R, low=0.0, high=1.0, size=None):
    u = R.fresh(size, lo=0.05, hi=0.95, pos=True, what="rand")
    return low + (high - low) * u


def d_random(R, size=None):
    return R.fresh(size, lo=0.05, hi=0.95, pos=True, what="rand")


def d_gamma(R, shape, scale=1.0, size=None):
    g = R.fresh(size, pos=True, what="gamma", params=(shape, scale))
    return scale * g


def d_stdgamma(R, shape, size=None):
    return R.fresh(size, pos=True, what="gamma", params=(shape, 1.0))


def d_chisquare(R, df, size=None):
    return R.fresh(size, pos=True, what="chisquare", params=(df,))


def d_mvn(R, mean, cov, size=None, *a, **k):
    """mean + L z, z arbitrary"""
    n = len(mean)
    if size is None:
        shape = (n,)
    elif isinstance(size, (int, np.integer)):
        shape = (int(size), n)
    else:
        shape = tuple(size) + (n,)
    z = R.fresh(shape, what="mvn", params=(mean, cov))
    if R.ctx.sym:
        L = A.l_cholesky(A.mk_noc(cov))
    else:
        L = np.linalg.cholesky(np.asarray(cov))
    return mean + z @ L.T


DRAWS = {"randn": d_randn, "normal": d_normal, "standard_normal": d_stdnormal,
         "rand": d_rand, "uniform": d_uniform, "random": d_random,
         "random_sample": d_random, "gamma": d_gamma, "standard_gamma": d_stdgamma,
         "chisquare": d_chisquare, "multivariate_normal": d_mvn}


class FakeState:
    """object returned in place of a RandomState"""
    def __init__(self, origin=None):
        self.origin = origin

    def __getattr__(self, name):
        if name in DRAWS:
            def draw(*a, **k):
                RAND[0].states.append(self.origin)
                return DRAWS[name](RAND[0], *a, **k)
            return draw
        raise Unsupported("random state method " + name)


@contextlib.contextmanager
def control_random(ctx):
    """dictate numpy's (and scipy.stats') random draws from ctx"""
    old = RAND[0]
    RAND[0] = Rand(ctx)
    saved = []

    def check_state(rs):
        return rs if isinstance(rs, FakeState) else FakeState(rs)

    def own_get(self):
        rs = self.__dict__.get("_random_state")
        return rs if isinstance(rs, FakeState) else FakeState(rs)

    def own_set(self, rs):
        self.__dict__["_random_state"] = rs
    real_crs = smv.check_random_state
    smv.check_random_state = check_state
    smv.multi_rv_generic._random_state = property(own_get, own_set)
    og, ug, ln = (scipy.stats.ortho_group, scipy.stats.unitary_group,
                  scipy.stats.lognorm)

    def grp(cplx):
        def rvs(dim=None, size=1, random_state=None):
            RAND[0].n += 1
            r = ctx.wide_basis(int(dim), cplx) if ctx.wide and dim > 2 \
                else ctx.rot("grp%d" % RAND[0].n, cplx, int(dim))
            ctx.register(r)
            RAND[0].log.append(("group", (dim,), (cplx,), r))
            return r
        return rvs

    def lnrvs(s=None, loc=0, scale=1, size=None, random_state=None):
        z = RAND[0].fresh(size, what="lognorm", params=(s, loc, scale))
        return loc + scale * np.exp(s * z)
    og.rvs, ug.rvs, ln.rvs = grp(False), grp(True), lnrvs
    if not ctx.sym:
        for nm, f in DRAWS.items():
            saved.append((nm, getattr(np.random, nm)))
            setattr(np.random, nm, (lambda f: lambda *a, **k: f(
                RAND[0], *a, **k))(f))
    try:
        yield RAND[0]
    finally:
        RAND[0] = old
        smv.check_random_state = real_crs
        del smv.multi_rv_generic._random_state
        for o in (og, ug, ln):
            o.__dict__.pop("rvs", None)
        for nm, f in saved:
            setattr(np.random, nm, f)


# ------------------------------------------------------------------- wiring
TARGETS = []
TABLE = {}
NAMED = {}
_loaded = [False]


def load():
    """import the package under analysis and build the replacement table"""
    if _loaded[0]:
        return
    _loaded[0] = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import robuststats
    mods = [robuststats]
    for m in pkgutil.walk_packages(robuststats.__path__, "robuststats."):
        try:
            mods.append(importlib.import_module(m.name))
        except Exception:
            pass
    f = inspect.getfile(robuststats)
    if not f.startswith(REPO + "/"):
        raise RuntimeError("robuststats comes from " + f)
    import pymanopt.tools.multi
    import pymanopt.manifolds.product
    import pymanopt.manifolds.psd
    import scipy.stats._covariance
    import scipy.special
    from . import state
    state.snapshot(mods)
    TARGETS.extend(mods)
    TARGETS.extend([pymanopt.tools.multi, pymanopt.manifolds.product,
                    pymanopt.manifolds.psd, skcov, smv,
                    scipy.stats._covariance])
    LA = Proxy(np.linalg, {})
    RND = RandomStub()
    NPX = Proxy(np, dict(NP_OVER, linalg=LA, random=RND))
    SPL = Proxy(scipy.linalg, SPLA_OVER)
    STATS = Proxy(scipy.stats, {"chi2": Chi2Stub})
    SPX = Proxy(scipy, {"linalg": SPL, "stats": STATS})
    PROXIES.update({id(np): NPX, id(np.linalg): LA, id(np.random): RND,
                    id(scipy.linalg): SPL, id(scipy): SPX,
                    id(scipy.stats): STATS})
    TABLE.update({k: v for k, v in PROXIES.items()})
    keep = []
    for nm, v in NP_OVER.items():
        real = getattr(np, nm, None) if nm not in (
            "complex", "float", "int", "bool") else None
        if real is not None and not isinstance(v, Lazy) and callable(real):
            TABLE[id(real)] = v
            keep.append(real)
    for nm, v in SPLA_OVER.items():
        real = getattr(scipy.linalg, nm, None)
        if real is not None:
            TABLE[id(real)] = v
            keep.append(real)
    for fn in list(A.FUN) + list(A.STRUCT):
        if id(fn) not in TABLE:
            TABLE[id(fn)] = lifted(fn)
    TABLE[id(scipy.stats.chi2)] = Chi2Stub
    TABLE[id(sklearn.utils.validation.check_array)] = check_array_stub
    TABLE[id(sklearn.utils.extmath.fast_logdet)] = fast_logdet_stub
    pd = sklearn.metrics.pairwise_distances
    TABLE[id(pd)] = guard(pairwise_distances_stub, pd)
    TABLE[id(joblib.Parallel)] = ParallelStub
    for nm in DRAWS:
        TABLE[id(getattr(np.random, nm))] = getattr(RND, nm)
        keep.append(getattr(np.random, nm))
    for nm in ("get_state", "set_state", "seed"):
        TABLE[id(getattr(np.random, nm))] = \
            (lambda nm: lambda *a, **k: getattr(RND, nm)(*a, **k))(nm)
        keep.append(getattr(np.random, nm))
    TABLE[id(scipy.special.gammaln)] = guard(
        uf1("gammaln", scipy.special.gammaln), scipy.special.gammaln)
    TABLE[id(scipy.special.psi)] = guard(
        uf1("psi", scipy.special.psi), scipy.special.psi)
    SPECIAL["gammaln"] = TABLE[id(scipy.special.gammaln)]
    SPECIAL["loggamma"] = SPECIAL["gammaln"]
    SPECIAL["psi"] = SPECIAL["digamma"] = TABLE[id(scipy.special.psi)]
    for nm, v in SPECIAL.items():
        real = getattr(scipy.special, nm)
        if id(real) not in TABLE:
            TABLE[id(real)] = v
            keep.append(real)
    SPECX = Proxy(scipy.special, {
        nm: TABLE[id(getattr(scipy.special, nm))] for nm in SPECIAL})
    PROXIES[id(scipy.special)] = TABLE[id(scipy.special)] = SPECX
    SPX.__dict__["_over"]["special"] = SPECX
    MATH = Proxy(math, dict(
        {nm: getattr(NPX, nm) for nm in
         ("sqrt", "log", "exp", "floor", "ceil", "isfinite", "isnan",
          "isinf")},
        fabs=NPX.abs, pow=NPX.power, lgamma=SPECIAL["gammaln"]))
    PROXIES[id(math)] = TABLE[id(math)] = MATH
    TABLE["keep"] = keep
    load.NPX = NPX
    register_autograd()


def register_autograd():
    """let autograd trace symbolic arrays: its own tracer and derivative
    rules run on them"""
    from autograd.numpy.numpy_boxes import ArrayBox
    from autograd.numpy.numpy_vspaces import ArrayVSpace
    from autograd.tracer import Box
    from autograd.extend import VSpace

    class SymVSpace(ArrayVSpace):
        def __init__(self, value):
            self.shape = value.shape
            self.kind = value.kind
            self.dtype = value.dtype
            self.iscomplex = self.kind == "c"

        @property
        def size(self):
            return int(np.prod(self.shape)) * (2 if self.iscomplex else 1)

        def _fill(self, v):
            o = np.empty(self.shape, dtype=object)
            for i in np.ndindex(*self.shape):
                o[i] = S(P.rf(v), None, self.kind)
            return A.mk(o) if self.shape else o[()]

        def zeros(self):
            return self._fill(0)

        def ones(self):
            if self.iscomplex:
                return self._fill(1) + 1j * self._fill(1)
            return self._fill(1)

        def _covector(self, x):
            return np.conj(x) if self.iscomplex else x

        def _mut_add(self, x, y):
            return x + y

        def __eq__(self, other):
            return self.shape == getattr(other, "shape", None)

    for t in (A.SymArray, S):
        ArrayBox.register(t)
        VSpace.register(t, SymVSpace)
    A.BOX[0] = Box


@contextlib.contextmanager
def active():
    """symbolic wiring of the modules under analysis"""
    load()
    saved = []

    def put(d, k, v):
        saved.append((d, k, d[k]))
        d[k] = v
    for m in TARGETS:
        d = m.__dict__
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            r = TABLE.get(id(v))
            if r is not None:
                put(d, k, r)
    g = smv.__dict__
    l2, lpi = A.S_(2.0).log(), pi().log()
    put(g, "_LOG_2PI", l2 + lpi)
    put(g, "_LOG_2", l2)
    put(g, "_LOG_PI", lpi)
    put(g, "_PSD", PSDStub)
    oldv = sklearn.base.BaseEstimator._validate_data
    sklearn.base.BaseEstimator._validate_data = validate_data_stub
    oldc = smv.multivariate_normal_gen._cdf
    smv.multivariate_normal_gen._cdf = mvncdf
    try:
        yield
    finally:
        sklearn.base.BaseEstimator._validate_data = oldv
        smv.multivariate_normal_gen._cdf = oldc
        for d, k, v in reversed(saved):
            d[k] = v


def functions_encoded(counter=None):
    return sorted(counter or [])
