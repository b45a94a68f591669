from .common import *

PROPERTY = "C04"


def fun(cplx):
    return est().complex_huber_m_estimator_fixed_point if cplx else \
        est().huber_m_estimator_fixed_point


def cls(cplx):
    return est().ComplexHuberMEstimator if cplx else est().HuberMEstimator


def constants(ctx, q, p, cplx):
    """threshold = q-quantile of the squared radius under the Gaussian model;
    beta makes E[u(t) t] = p there"""
    if ctx.sym:
        from symx.shim import Chi2Stub as chi2
    else:
        from scipy.stats import chi2
    if cplx:
        lb = chi2.ppf(q, 2 * p) / 2
        return lb, chi2.cdf(2 * lb, 2 * p + 2) + lb * (1 - q) / p
    lb = chi2.ppf(q, p)
    return lb, chi2.cdf(lb, p + 2) + lb * (1 - q) / p


def step(N, p, cplx, how="spec", via="fun"):
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        S, iS = spd_inv(ctx, "s", p, cplx, how)
        q = quantile(ctx)
        if via == "fun":
            out, _, it = fun(cplx)(X, q, init=S, tol=NEVER, iter_max=1)
        else:
            e = cls(cplx)(q, tol=NEVER, iter_max=1).fit(X, init=S)
            out, it = e.covariance_, e.iteration_
        lb, beta = constants(ctx, q, p, cplx)
        w = []
        for i in range(N):
            t = quad(X[i], iS)
            w.append(np.minimum(1, lb / ctx.array([t]))[0] / beta)
        ctx.equal(out, mean_outer(X, w, fr(ctx, 1, N)), "Huber step")
        ctx.equal(it, 1, "iteration count")
    return h


def consistency(p, cplx):
    """p-dimensional Gaussian: E[u(t) t] = p, from the chi-square identity
    E[t 1(t<=l)] = p F_{p+2}(l), E[1(t>l)] = 1-q; the implemented constant is
    read off a small sample (t <= threshold)"""
    def h(ctx):
        q = quantile(ctx)
        s = ctx.real("s", pos=True)
        x = ctx.data("x", (1, p), cplx)
        S = ctx.diag([s] * p, "c" if cplx else "f")
        lb, beta = constants(ctx, q, p, cplx)
        n2 = (x * x.conj()).real.sum()
        ctx.assume(n2 > 0)
        out, _, _ = fun(cplx)(x, q, init=S, tol=NEVER, iter_max=1)
        tr = sum([out[i, i].real for i in range(p)])
        # tr / n2 = u(t)
        t = n2 / s
        if t <= lb:
            ctx.equal(tr * beta, n2, "inner weight is 1/beta")
        else:
            ctx.equal(tr * beta, lb * s, "outer weight is lambda/(beta t)")
    return h


def start(N, p, cplx):
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        q = quantile(ctx)
        S = ctx.hermitise(mean_outer(X, [1] * N, fr(ctx, 1, N)))
        a, _, _ = fun(cplx)(X, q, tol=NEVER, iter_max=0)
        ctx.equal(a, S, "starts at the empirical second moment")
    return h


def compose(N, p, cplx, k):
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        q = quantile(ctx)
        S = ctx.spd("s", p, cplx)
        b = S
        for _ in range(k):
            b, _, _ = fun(cplx)(X, q, init=b, tol=NEVER, iter_max=1)
        a, _, it = fun(cplx)(X, q, init=S, tol=NEVER, iter_max=k)
        ctx.equal(a, b, "composition of steps")
    return h


def outer(cplx, k):
    """far out every step scales by threshold / beta"""
    def h(ctx):
        X = ctx.zeros((2, 1), "c" if cplx else "f")
        x = ctx.real("x", pos=True)
        X[0, 0], X[1, 0] = x, -x
        q = quantile(ctx)
        lb, beta = constants(ctx, q, 1, cplx)
        r = lb / beta
        s = ctx.real("s", pos=True)
        S = ctx.array([[s]], "c" if cplx else "f")
        n = x * x
        v = s
        for _ in range(k):
            ctx.assume(n > lb * v)
            v = v * r
        a, _, it = fun(cplx)(X, q, init=S, tol=NEVER, iter_max=k)
        ctx.equal(a[0, 0], v, "scaled by threshold / beta at every step")
        ctx.equal(it, k, "count")
    return h


def inner(cplx, k):
    """many steps close in: stationary after the first"""
    def h(ctx):
        X = ctx.data("x", (1, 1), cplx)
        q = quantile(ctx)
        lb, beta = constants(ctx, q, 1, cplx)
        S = ctx.spd("s", 1, cplx)
        n = (X[0, 0] * X[0, 0].conj()).real
        ctx.assume(n > 0)
        ctx.assume(n < lb * S[0, 0].real)
        ctx.assume(beta < lb)
        a, _, it = fun(cplx)(X, q, init=S, tol=NEVER, iter_max=k)
        ctx.equal(a[0, 0], n / beta, "weight 1 / beta")
        ctx.equal(it, k, "count")
    return h


def instances(tier):
    out = []
    for c in (False, True):
        t = tag(c)
        widened(out, "%s-step" % t, lambda N, p: step(N, p, c), free=(-1,))
        widened(out, "%s-class" % t, lambda N, p: step(N, p, c, via="cls"),
                ((130, 3),), free=(-1,))
        out.append(Instance("%s-long-N1-p1" % t, compose(1, 1, c, 8),
                            bounds="N=p=1, 8 steps"))
        for k in (3, 30, 120):
            if k < 4:
                out.append(Instance("%s-outer-%d" % (t, k), outer(c, k),
                                    bounds="N=2, p=1, %d steps beyond the "
                                    "threshold" % k))
            out.append(Instance("%s-inner-%d" % (t, k), inner(c, k),
                                bounds="N=p=1, %d steps within the "
                                "threshold" % k))
        out += [
            Instance("%s-step-N2-p2" % t, step(2, 2, c), bounds="N=2,p=2"),
            Instance("%s-class-N2-p2" % t, step(2, 2, c, via="cls"),
                     bounds="N=2,p=2"),
            Instance("%s-step-N2-p1" % t, step(2, 1, c), bounds="N=2,p=1"),
            Instance("%s-step-N1-p3-diag" % t, step(1, 3, c, "diag"),
                     bounds="N=1,p=3, diagonal start"),
            Instance("%s-consistency-p2" % t, consistency(2, c),
                     bounds="N=1,p=2"),
            Instance("%s-start-N2-p2" % t, start(2, 2, c), bounds="N=2,p=2"),
            Instance("%s-compose2-p1" % t, compose(1, 1, c, 2),
                     bounds="N=1,p=1, 2 steps"),
        ]
    return out
