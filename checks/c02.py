from .common import *
from .c01 import fun

PROPERTY = "C02"


def scaled(N, p, cplx, k=1, norm='None', how="spec"):
    """each sample multiplied by its own nonzero scalar"""
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        S = ctx.spd("s", p, cplx, how)
        t = ctx.reals("t", (N, 1))
        for i in range(N):
            ctx.assume(t[i, 0] * t[i, 0] > 0)
        if cplx:
            u = ctx.zeros((N, 1), "c")
            for i in range(N):
                c = ctx.unit("u%d" % i)
                u[i, 0] = c + 1j * ctx.root(1 - c * c)
            t = t * u
        f = fun(cplx)
        a, e1, _ = f(X, init=S, tol=NEVER, iter_max=k, normalisation=norm)
        b, e2, _ = f(t * X, init=S, tol=NEVER, iter_max=k, normalisation=norm)
        ctx.equal(b, a, "estimate unchanged by the sample scales")
        ctx.equal(e2, e1, "error unchanged by the sample scales")
    return h


def affine(N, p, cplx, norm=None):
    """x -> A x with A any invertible matrix sending S1 to S2"""
    def h(ctx):
        k = "c" if cplx else "f"
        X = ctx.data("x", (N, p), cplx)
        S1, V1, r1 = ctx.spd("s", p, cplx, ret=True)
        S2, V2, r2 = ctx.spd("t", p, cplx, ret=True)
        A = V2 @ ctx.diag([b / a for a, b in zip(r1, r2)], k) @ H(V1)
        f = fun(cplx)
        a, _, _ = f(X, init=S1, tol=NEVER, iter_max=1)
        b, _, _ = f(X @ A.T, init=S2, tol=NEVER, iter_max=1)
        ctx.equal(b, A @ a @ H(A), "affine equivariance")
    return h


def homog(N, p, cplx):
    """the map is positively homogeneous in its start"""
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        S = ctx.spd("s", p, cplx)
        c = ctx.real("c", pos=True)
        f = fun(cplx)
        a, _, _ = f(X, init=S, tol=NEVER, iter_max=1)
        b, _, _ = f(X, init=c * S, tol=NEVER, iter_max=1)
        ctx.equal(b, c * a, "homogeneity in the start")
        for nm in ("trace", "determinant", "element"):
            a, _, _ = f(X, init=S, tol=NEVER, iter_max=1, normalisation=nm)
            b, _, _ = f(X, init=c * S, tol=NEVER, iter_max=1,
                        normalisation=nm)
            ctx.equal(b, a, "shape does not depend on the start's scale")
    return h


def perm(N, p, cplx):
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        S = ctx.spd("s", p, cplx)
        f = fun(cplx)
        a, _, _ = f(X, init=S, tol=NEVER, iter_max=2)
        b, _, _ = f(X[::-1], init=S, tol=NEVER, iter_max=2)
        ctx.equal(b, a, "sample order is irrelevant")
    return h


def instances(tier):
    out = []
    for c in (False, True):
        t = tag(c)
        widened(out, t + "-scale", lambda N, p: scaled(N, p, c),
                ((130, 2), (12, 6)))
        widened(out, t + "-scale-trace",
                lambda N, p: scaled(N, p, c, 1, "trace"), ((130, 2),))
        widened(out, t + "-perm", lambda N, p: perm(N, p, c),
                ((130, 2),), free=(-1,), core=False)
        widened(out, t + "-affine", lambda N, p: affine(N, p, c),
                ((3, 3), (2, 5)), mode="rot", free=(-1,), core=False)
        out += [
            Instance("%s-scale-N2-p2" % t, scaled(2, 2, c), bounds="N=2,p=2"),
            Instance("%s-scale-trace" % t, scaled(2, 2, c, 1, "trace"),
                     bounds="N=2,p=2"),
            Instance("%s-scale-p3-diag" % t, scaled(2, 3, c, 1, how="diag"),
                     bounds="N=2,p=3, diagonal start"),
            Instance("%s-scale-2steps" % t, scaled(2, 2, c, 2), core=False,
                     bounds="N=2,p=2, 2 steps"),
            Instance("%s-affine-p2" % t, affine(1, 2, c), core=False,
                     bounds="N=1,p=2"),
            Instance("%s-homog-p2" % t, homog(2, 2, c), core=False,
                     bounds="N=2,p=2"),
            Instance("%s-perm" % t, perm(2, 2, c), core=False,
                     bounds="N=2,p=2, 2 steps"),
        ]
    return out
