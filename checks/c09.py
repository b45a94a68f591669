from .common import *
from .c08 import makers, ITER, opts

PROPERTY = "C09"


def batch(name, T, N, p, jobs, k=1):
    """row i of the batch result is the estimate of trial i alone"""
    def h(ctx):
        cl, kw, c = makers(ctx, name)
        X = ctx.data("x", (T, N, p), c)
        o = opts(name)
        if o:
            o["iter_max"] = k
        e = cl(**kw, **o)
        b = base().CovariancesEstimation(e, n_jobs=jobs)
        X0 = X.copy()
        with threads(ctx):
            R = b.fit(X).transform(X)
        ctx.equal(X, X0, "trials are left untouched")
        ctx.equal(R.shape, (T, p, p), "shape")
        ctx.true(ctx.kindof(R) == ("c" if c else "f"), "kind of the output")
        for i in range(T):
            ref = cl(**kw, **o).fit(X[i]).covariance_
            ctx.equal(R[i], ref, "trial by trial result")
        with threads(ctx):
            F = base().CovariancesEstimation(
                cl(**kw, **o), n_jobs=jobs).fit_transform(X)
        ctx.equal(F, R, "fit_transform")
    return h


def init_passed(name, T, N, p, jobs):
    """fit arguments reach every fit"""
    def h(ctx):
        cl, kw, c = makers(ctx, name)
        X = ctx.data("x", (T, N, p), c)
        S0 = ctx.spd("s", p, c, "diag" if c else "spec")
        e = cl(**kw, **ITER)
        with threads(ctx):
            R = base().CovariancesEstimation(e, n_jobs=jobs).transform(
                X, init=S0)
        for i in range(T):
            ref = cl(**kw, **ITER).fit(X[i], init=S0).covariance_
            ctx.equal(R[i], ref, "initial point used for every trial")
    return h


def integers(jobs):
    """integer trials are not truncated"""
    def h(ctx):
        X = ctx.ints("x", (2, 2, 1), -3, 3)
        e = base().RealEmpiricalCovariance(assume_centered=True)
        with threads(ctx):
            R = base().CovariancesEstimation(e, n_jobs=jobs).transform(X)
        for i in range(2):
            s = 0
            for j in range(2):
                s = s + X[i, j, 0] * X[i, j, 0]
            ctx.equal(R[i, 0, 0] * 2, s, "second moment")
    return h


def order(name, jobs):
    """the result follows the order of the trials"""
    def h(ctx):
        cl, kw, c = makers(ctx, name)
        X = ctx.data("x", (3, 2, 1), c)
        with threads(ctx):
            a = base().CovariancesEstimation(
                cl(**kw, **opts(name)), n_jobs=jobs).transform(X)
            b = base().CovariancesEstimation(
                cl(**kw, **opts(name)), n_jobs=jobs).transform(
                    X[::-1])
        for i in range(3):
            ctx.equal(b[i], a[2 - i], "permuted trials")
    return h


def history(name, jobs):
    """a second batch does not depend on the first"""
    def h(ctx):
        cl, kw, c = makers(ctx, name)
        X = ctx.data("x", (2, 2, 1), c)
        Y = ctx.data("y", (1, 2, 1), c)
        e = cl(**kw, **opts(name))
        b = base().CovariancesEstimation(e, n_jobs=jobs)
        with threads(ctx):
            b.transform(X)
            R = b.transform(Y)
        ctx.equal(R[0], cl(**kw, **opts(name)).fit(Y[0]).covariance_,
                  "second batch")
    return h


def instances(tier):
    out = []
    for k in ("empirical", "tyler", "student", "huber"):
        for c in (False, True):
            n = "%s-%s" % (k, tag(c))
            for j in (1, 2, 3, -1):
                widened(out, "%s-jobs%d" % (n, j),
                        lambda T, N, p: batch(n, T, N, p, j),
                        ((25, 1, 1),) if k == "huber" else
                        ((7, 3, 2), (25, 3, 1)) + (((130, 5, 1), (270, 5, 1))
                                                   if k == "empirical" else ()),
                        free=(-1,))
            for j in (1, 2, -1):
                p = 1 if k == "huber" or n == "student-complex" else 2
                N = 1 if k == "huber" else (3 if k == "empirical" else 2)
                out.append(Instance("%s-jobs%d" % (n, j),
                                    batch(n, 2, N, p, j),
                                    bounds="2 trials, N=%d,p=%d" % (N, p)))
                if k != "empirical" and j != -1:
                    out.append(Instance("%s-init-jobs%d" % (n, j),
                                        init_passed(n, 2, N, p, j),
                                        bounds="2 trials, p=%d" % p))
            if k in ("empirical", "tyler"):
                for j in (1, 2):
                    out.append(Instance("%s-order-jobs%d" % (n, j),
                                        order(n, j), bounds="3 trials, p=1"))
            if k in ("empirical", "student"):
                for j in (1, 2):
                    out.append(Instance("%s-history-jobs%d" % (n, j),
                                        history(n, j), bounds="p=1"))
    for j in (1, 2):
        out.append(Instance("integers-jobs%d" % j, integers(j),
                            bounds="2 trials of 2 samples in -3..3"))
    return out
