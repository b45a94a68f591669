"""Helpers shared by the property harnesses."""
import contextlib
import logging
import warnings

import numpy as np

from symx.runner import Instance

logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")
NEVER = -1.0     # tolerance that is never reached


def est():
    import robuststats.estimation.covariance as m
    return m


def base():
    import robuststats.estimation.base as m
    return m


def struct():
    import robuststats.estimation.structured as m
    return m


def man():
    import robuststats.models.manifolds as m
    return m


def prob():
    import robuststats.models.probability as m
    return m


def maps():
    import robuststats.models.mappings as m
    return m


def costs():
    import robuststats.models.cost as m
    return m


def lin():
    import robuststats.utils.linalg as m
    return m


def gen():
    import robuststats.utils.generation_data as m
    return m


def online():
    import robuststats.online.estimation as m
    return m


def H(M):
    return M.conj().T


def outer(x, y=None):
    """x y^H for 1-d arrays"""
    y = x if y is None else y
    return x.reshape(-1, 1) @ y.conj().reshape(1, -1)


def quad(x, M):
    """x^H M x, real part"""
    r = x.conj().reshape(1, -1) @ M @ x.reshape(-1, 1)
    return r[0, 0].real


def spd_inv(ctx, name, n, cplx=False, how="spec"):
    """positive definite matrix and its inverse"""
    if how == "chol":
        M, L = ctx.spd(name, n, cplx, "chol", ret=True)
        iL = low_inv(ctx, L, n, cplx)
        return M, H(iL) @ iL
    M, V, r = ctx.spd(name, n, cplx, how, ret=True)
    iM = V @ ctx.diag([1 / (x * x) for x in r], "c" if cplx else "f") @ H(V)
    return M, iM


def low_inv(ctx, L, n, cplx):
    iL = ctx.zeros((n, n), "c" if cplx else "f")
    for i in range(n):
        iL[i, i] = 1 / L[i, i]
        for j in range(i):
            s = 0
            for k in range(j, i):
                s = s - L[i, k] * iL[k, j]
            iL[i, j] = s / L[i, i]
    return iL


def mean_outer(X, w, scale):
    """scale * sum_i w_i x_i x_i^H"""
    r = 0
    for i in range(X.shape[0]):
        r = r + w[i] * outer(X[i])
    return scale * r


def second_moment(X):
    return mean_outer(X, [1] * X.shape[0], 1 / X.shape[0]) \
        if not hasattr(X, "obj") else mean_outer(X, [1] * X.shape[0],
                                                 frac(1, X.shape[0]))


def frac(a, b):
    from symx import arr, poly
    from fractions import Fraction
    return arr.S(poly.rf(Fraction(a, b)), None, "f")


def fr(ctx, a, b):
    return frac(a, b) if ctx.sym else a / b


def hermitian(ctx, M, label):
    ctx.equal(M, H(M), label)


@contextlib.contextmanager
def solver_stub(reply):
    """pymanopt's solvers replaced, in both modes, by reply(problem, x)"""
    import pymanopt.solvers as ps
    saved = []
    for nm in ("SteepestDescent", "ConjugateGradient", "TrustRegions"):
        c = getattr(ps, nm)
        saved.append((c, c.__dict__.get("solve")))

        def solve(self, problem, x=None, reuselinesearch=False, *a, **k):
            return reply(problem, x)
        c.solve = solve
    try:
        yield
    finally:
        for c, s in saved:
            c.solve = s


def tag(cplx):
    return "complex" if cplx else "real"


def quantile(ctx, name="q"):
    """arbitrary number of (0, 1)"""
    u = ctx.real(name, pos=True, lo=0.1, hi=20)
    return u / (1 + u)


@contextlib.contextmanager
def threads(ctx, preempt=False):
    """parallel tasks run as threads of this process; yields the preemption
    point to call inside a task: every waiting task reaches it, too, before
    this one goes on"""
    from symx.shim import ParallelStub
    if ctx.sym:
        saved = ParallelStub.threads
        ParallelStub.threads = True
        try:
            yield (ParallelStub.preempt if preempt else (lambda: None))
        finally:
            ParallelStub.threads = saved
    else:
        import joblib
        import threading
        bar = threading.Barrier(2, timeout=3)

        def point():
            try:
                bar.wait()
            except threading.BrokenBarrierError:
                pass
        with joblib.parallel_backend("threading"):
            yield (point if preempt else (lambda: None))


def ln(ctx, x):
    return x.log() if hasattr(x, "log") else np.log(x)


def gammaln(ctx, x):
    if ctx.sym:
        import scipy.special
        from symx import shim
        return shim.uf1("gammaln", scipy.special.gammaln)(x)
    import scipy.special
    return scipy.special.gammaln(x)


def pi(ctx):
    if ctx.sym:
        from symx import shim
        return shim.pi()
    return np.pi


def det2(M):
    """determinant of a 1x1 or 2x2 matrix"""
    if M.shape[0] == 1:
        return M[0, 0]
    return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]


def inv2(ctx, M, kind="c"):
    """inverse of a 1x1 or 2x2 matrix"""
    n = M.shape[0]
    r = ctx.zeros((n, n), kind)
    if n == 1:
        r[0, 0] = 1 / M[0, 0]
        return r
    d = det2(M)
    r[0, 0], r[1, 1] = M[1, 1] / d, M[0, 0] / d
    r[0, 1], r[1, 0] = -M[0, 1] / d, -M[1, 0] / d
    return r


def kron(ctx, A, B, kind="c"):
    a, b = A.shape[0], B.shape[0]
    r = ctx.zeros((a * b, a * b), kind)
    for i in range(a):
        for j in range(a):
            r[i * b:(i + 1) * b, j * b:(j + 1) * b] = A[i, j] * B
    return r


def logt_complex(ctx, q, ld, p, df):
    """log density of the complex t, shape of log-determinant ld, q = x^H S^-1
    x: the 2p-dimensional real t whose shape is half the real embedding"""
    h = fr(ctx, 1, 2)
    return gammaln(ctx, (df + 2 * p) * h) - gammaln(ctx, df * h) \
        - p * ln(ctx, df * pi(ctx)) - (ld - p * ln(ctx, num(ctx, 2))) \
        - (df + 2 * p) * h * ln(ctx, 1 + 2 * q / df)


def num(ctx, x):
    """a number the logarithm can be taken of in both modes"""
    return fr(ctx, x, 1) if ctx.sym else float(x)


def entries(ctx, name, n, cplx=True, how="entries"):
    """arbitrary (Hermitian) positive definite matrix by its entries"""
    k = "c" if cplx else "f"
    M = ctx.zeros((n, n), k)
    for i in range(n):
        M[i, i] = ctx.real("%s_%d%d" % (name, i, i), pos=True)
    if n == 1 or how == "diag":
        return ctx.laid(M, name)
    for i in range(n):
        for j in range(i):
            z = ctx.real("%s_%d%d" % (name, i, j), lo=-.6, hi=.6)
            if cplx:
                z = z + 1j * ctx.real("%s_i%d%d" % (name, i, j), lo=-.6,
                                      hi=.6)
            M[i, j] = z
            M[j, i] = z.conjugate() if cplx else z
    if n == 2:
        ctx.assume((M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]).real > 0)
    return ctx.laid(M, name)


def coords(name, n, cplx=True, how="entries"):
    """(input, direction) for every real coordinate of entries(...)"""
    out = []
    for i in range(n):
        E = np.zeros((n, n), dtype=complex if cplx else float)
        E[i, i] = 1
        out.append(("%s_%d%d" % (name, i, i), E))
        for j in range(i):
            if how == "diag":
                continue
            E = np.zeros((n, n), dtype=complex if cplx else float)
            E[i, j] = E[j, i] = 1
            out.append(("%s_%d%d" % (name, i, j), E))
            if cplx:
                E = np.zeros((n, n), dtype=complex)
                E[i, j], E[j, i] = 1j, -1j
                out.append(("%s_i%d%d" % (name, i, j), E))
    return out


def real_inner(G, E):
    """Re tr(G^H E)"""
    s = 0
    n = E.shape[0]
    for i in range(n):
        for j in range(n):
            if E[i, j] != 0:
                s = s + (G[i, j].conj() * E[i, j].item()).real
    return s


def wide(fn, mode="flat", free=(0, -1)):
    """the harness on large inputs: the rows `free` of every data array are
    arbitrary, the others fixed; positive definite matrices are multiples of
    the identity (flat) or have a fixed eigenbasis and one arbitrary
    eigenvalue (rot)"""
    def h(ctx):
        ctx.wide = (mode, free)
        return fn(ctx)
    return h


SIZES = ((1030, 2), (130, 2), (30, 12), (12, 6))
LONG = 120


def widened(out, name, make, sizes=SIZES, mode="flat", free=(0, -1), **kw):
    """instances make(N, p) on large inputs"""
    for z in sizes:
        out.append(Instance(
            "%s-wide-%s" % (name, "x".join(map(str, z))),
            wide(make(*z), mode, free),
            bounds="sizes %s; %s; other positions fixed numbers" % (
                "x".join(map(str, z)),
                {"flat": "rows %s arbitrary, start a multiple of the identity"
                 % (free,), "rot": "rows %s and one eigenvalue arbitrary"
                 % (free,)}[mode]), **kw))
