from .common import *

PROPERTY = "C07"


def moments(ctx, X, centered):
    N = X.shape[0]
    m = 0
    if not centered:
        m = X[0]
        for i in range(1, N):
            m = m + X[i]
        m = m * fr(ctx, 1, N)
    C = 0
    for i in range(N):
        C = C + outer(X[i] - m)
    return m, C * fr(ctx, 1, N)


def function(N, p, centered, cplx):
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        C = base().complex_empirical_covariance(X, assume_centered=centered)
        _, E = moments(ctx, X, centered)
        ctx.equal(C, E, "maximum likelihood covariance")
        ctx.equal(C.shape, (p, p), "shape")
        hermitian(ctx, C, "Hermitian")
    return h


def klass(N, p, centered, store, cplx=True):
    def h(ctx):
        cl = base().ComplexEmpiricalCovariance if cplx else \
            base().RealEmpiricalCovariance
        X = ctx.data("x", (N, p), cplx)
        m = cl(assume_centered=centered, store_precision=store)
        r = m.fit(X)
        ctx.true(r is m, "fit returns the estimator")
        mu, E = moments(ctx, X, centered)
        ctx.equal(m.covariance_, E, "covariance")
        ctx.equal(m.location_, mu if not centered else
                  ctx.zeros((p,), "c" if cplx else "f"), "location")
        ctx.equal(m.transform(X), E, "transform hands over the covariance")
        P = m.get_precision()
        ctx.equal(P @ E, ctx.eye(p, "c" if cplx else "f"),
                  "precision inverts the covariance")
        if store:
            ctx.equal(m.precision_, P, "stored precision")
        else:
            ctx.true(m.precision_ is None, "precision not stored")
        F = cl(assume_centered=centered,
               store_precision=store).fit_transform(X)
        ctx.equal(F, E, "fit_transform")
    return h


def error_norm(p, norm, scaling, squared):
    """distance between the estimate and any matrix"""
    def h(ctx):
        m = base().ComplexEmpiricalCovariance(assume_centered=True)
        k = "c"
        if norm == "frobenius":
            X = ctx.data("x", (p, p), True)
            m.fit(X)
            C = ctx.data("c", (p, p), True)
            D = C - m.covariance_
            e = 0
            for i in range(p):
                for j in range(p):
                    e = e + (D[i, j] * D[i, j].conj()).real
        else:
            # any estimate and a Hermitian error with known eigenvalues
            X = ctx.data("x", (p, p), True)
            m.fit(X)
            D, V, d = ctx.spectral("d", p, True)
            C = m.covariance_ + D
            q = [x * x for x in d]
            e = q[0]
            for x in q[1:]:
                e = x if bool(x > e) else e
        if scaling:
            e = e / p
        got = m.error_norm(C, norm=norm, scaling=scaling, squared=True)
        ctx.equal(got, e, "error norm")
        if not squared:
            g = m.error_norm(C, norm=norm, scaling=scaling, squared=False)
            ctx.equal(g * g, e, "square root of the squared norm")
            ctx.true(g >= 0, "nonnegative")
    return h


def distances(name, N, p, M=2):
    """squared Mahalanobis distances of new data to the fitted model"""
    def h(ctx):
        from .c08 import makers, ITER
        cl, kw, c = makers(ctx, name)
        X = ctx.data("x", (N, p), c)
        Y = ctx.data("y", (M, p), c)
        if name.startswith("empirical"):
            m = cl(assume_centered=False).fit(X)
        else:
            m = cl(**kw, **ITER).fit(X, init=ctx.spd("s", p, c, "diag"))
        Y0 = Y.copy()
        d = m.mahalanobis(Y)
        ctx.equal(Y, Y0, "data untouched")
        ctx.equal(d.shape, (M,), "one distance per sample")
        iS = inv2(ctx, m.covariance_, "c" if c else "f")
        for i in range(M):
            ctx.equal(d[i], quad(Y[i] - m.location_, iS), "distance")
    return h


def instances(tier):
    out = []
    for nm in ("frobenius", "spectral"):
        for z in (True, False):
            widened(out, "error-%s%s" % (nm, "-scaled" if z else ""),
                    lambda p: error_norm(p, nm, z, True), ((6,),),
                    "rot", free=(-1,))
    for k in ("empirical", "tyler", "student"):
        for c in (False, True):
            n = "%s-%s" % (k, tag(c))
            widened(out, "distance-" + n, lambda M, p: distances(
                n, 3, p, M), ((130, 2),), free=(-1,))
            for N, p in ((2, 1), (3, 2)):
                n = "%s-%s" % (k, tag(c))
                if k != "empirical":
                    N = p
                out.append(Instance("distance-%s-p%d" % (n, p),
                                    distances(n, N, p),
                                    bounds="N=%d,p=%d" % (N, p)))
    for c in (False, True):
        for k in (True, False):
            n = "%s-%s" % (tag(c), "centered" if k else "mean")
            widened(out, "function-" + n, lambda N, p: function(N, p, k, c))
            widened(out, "class-" + n, lambda N, p: klass(N, p, k, True, c),
                    ((130, 2), (1030, 1)), free=(-1,))
            for N, p in ((1, 1), (1, 2), (2, 2), (3, 2), (2, 3)):
                out.append(Instance("function-%s-N%dp%d" % (n, N, p),
                                    function(N, p, k, c),
                                    bounds="N=%d,p=%d" % (N, p)))
            for s in (True, False):
                for N, p in ((2, 1), (2 if k else 3, 2)):
                    out.append(Instance(
                        "class-%s-%s-N%dp%d" % (n, "stored" if s else
                                                "onthefly", N, p),
                        klass(N, p, k, s, c), bounds="N=%d,p=%d" % (N, p)))
    for nm in ("frobenius", "spectral"):
        for s in (True, False):
            for q in (True, False):
                out.append(Instance(
                    "error-%s%s%s" % (nm, "-scaled" if s else "",
                                      "" if q else "-root"),
                    error_norm(2, nm, s, q), bounds="p=2"))
    if tier == "thorough":
        for c in (False, True):
            for k in (True, False):
                out.append(Instance("function-%s-%s-N5p4" % (tag(c), k),
                                    function(5, 4, k, c), bounds="N=5,p=4",
                                    core=False, budget=600))
    return out
