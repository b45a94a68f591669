from .common import *
from .c05 import nonzero

PROPERTY = "C08"


def makers(ctx, name, n=""):
    """(class, keyword parameters as symbols, complex?)"""
    c = name.endswith("complex")
    pre = "Complex" if c else ""
    k = name.split("-")[0]
    if k == "tyler":
        return getattr(est(), pre + "TylerShapeMatrix"), {}, c
    if k == "student":
        return getattr(est(), pre + "CenteredStudentMLE"), dict(
            df=ctx.real("df" + n, pos=True, lo=0.5, hi=6)), c
    if k == "huber":
        return getattr(est(), pre + "HuberMEstimator"), dict(
            q=quantile(ctx, "q" + n)), c
    if k == "empirical":
        b = base()
        return (b.ComplexEmpiricalCovariance if c else
                b.RealEmpiricalCovariance), {}, c
    raise KeyError(name)


ITER = dict(tol=NEVER, iter_max=1)


def opts(name):
    return {} if name.startswith("empirical") else dict(ITER)


def start(ctx, name, nm, p, c):
    if name.startswith("empirical"):
        return {}
    return dict(init=ctx.spd(nm, p, c, "diag" if c else "spec"))


def report(m, name):
    d = [("covariance", m.covariance_), ("location", m.location_),
         ("precision", m.get_precision())]
    if not name.startswith("empirical"):
        d += [("error", m.err_), ("count", m.iteration_)]
    return d


def attributes(name, N, p):
    def h(ctx):
        cl, kw, c = makers(ctx, name)
        X = ctx.data("x", (N, p), c)
        k = start(ctx, name, "s", p, c)
        X0 = X.copy()
        k0 = {a: b.copy() for a, b in k.items()}
        m = cl(**kw, **opts(name))
        r = m.fit(X, **k)
        ctx.true(r is m, "fit returns the estimator")
        ctx.equal(X, X0, "the data are left untouched")
        for a in k:
            ctx.equal(k[a], k0[a], "the initial point is left untouched")
        S = m.covariance_
        ctx.equal(S.shape, (p, p), "shape")
        hermitian(ctx, S, "the estimate is Hermitian")
        if not name.startswith("empirical"):
            ctx.equal(m.location_, ctx.zeros((p,), "c" if c else "f"),
                      "location of a centred model")
        ctx.equal(m.transform(X), S, "transform hands over the estimate")
        ctx.equal(m.get_precision() @ S, ctx.eye(p, "c" if c else "f"),
                  "precision inverts the estimate")
        if not name.startswith("empirical"):
            m2 = cl(**kw, **opts(name))
            ctx.equal(m2.fit_transform(X, **k), S, "fit_transform")
    return h


def psd(name, N, p):
    """the estimate is positive semidefinite: every quadratic form"""
    def h(ctx):
        cl, kw, c = makers(ctx, name)
        X = ctx.data("x", (N, p), c)
        k = start(ctx, name, "s", p, c)
        m = cl(**kw, **opts(name)).fit(X, **k)
        S = m.covariance_
        for i in range(p):
            ctx.le(0, S[i, i].real, "diagonal is nonnegative")
    return h


def refit(name, N, p):
    """earlier fits leave no trace"""
    def h(ctx):
        cl, kw, c = makers(ctx, name)
        X = ctx.data("x", (N, p), c)
        Y = ctx.data("y", (N + 1, p), c)
        nonzero(ctx, X)
        nonzero(ctx, Y)
        k = start(ctx, name, "s", p, c)
        m = cl(**kw, **opts(name))
        m.fit(Y, **k)
        m.fit(X, **k)
        f = cl(**kw, **opts(name)).fit(X, **k)
        for (l, a), (_, b) in zip(report(m, name), report(f, name)):
            ctx.equal(a, b, l + " after a second fit")
    return h


def restart(name, N, p):
    """a fit without an initial point after other fits, with and without one"""
    def h(ctx):
        cl, kw, c = makers(ctx, name)
        X = ctx.data("x", (N, p), c)
        Y = ctx.data("y", (N, p), c)
        nonzero(ctx, X)
        nonzero(ctx, Y)
        k = start(ctx, name, "s", p, c)
        m = cl(**kw, **opts(name))
        if ctx.choose("first", ("default", "given")) == "given":
            m.fit(Y, **k)
        else:
            m.fit(Y)
        m.fit(X)
        f = cl(**kw, **opts(name)).fit(X)
        for (l, a), (_, b) in zip(report(m, name), report(f, name)):
            ctx.equal(a, b, l + " after a second fit without a start")
    return h


def params(name, N, p, how):
    """parameters changed after construction are the ones used"""
    def h(ctx):
        from sklearn.base import clone
        cl, kw, c = makers(ctx, name)
        _, kw2, _ = makers(ctx, name, "b")
        X = ctx.data("x", (N, p), c)
        nonzero(ctx, X)
        k = start(ctx, name, "s", p, c)
        o = dict(opts(name))
        kw.update(o)
        if o:
            # one step in the end, two steps before
            kw2.update(tol=0.5, iter_max=2)
        if name.startswith("tyler"):
            kw.update(normalisation="trace", method="fixed-point")
            kw2.update(normalisation="None", method="natural gradient")
        if name.startswith("empirical"):
            kw.update(assume_centered=False, store_precision=False)
            kw2.update(assume_centered=True, store_precision=True)
        m = cl(**kw2)
        if how == "set_params":
            m.set_params(**kw)
        elif how == "clone":
            m = clone(cl(**kw))
        else:
            for a, b in kw.items():
                setattr(m, a, b)
        for a, b in kw.items():
            if not isinstance(b, (str, bool)):
                ctx.equal(m.get_params()[a], b, "parameter is stored")
            else:
                ctx.true(m.get_params()[a] == b, "parameter is stored")
        m.fit(X, **k)
        f = cl(**kw).fit(X, **k)
        for (l, a), (_, b) in zip(report(m, name), report(f, name)):
            ctx.equal(a, b, l + " with the current parameters")
    return h


def method(cplx):
    def h(ctx):
        cl = est().ComplexTylerShapeMatrix if cplx else \
            est().TylerShapeMatrix
        ctx.raises(NotImplementedError, lambda: cl(method="unknown"),
                   "unknown methods are rejected")
        m = cl()
        m.method = "unknown"
        X = ctx.data("x", (2, 1), cplx)
        ctx.raises(NotImplementedError, lambda: m.fit(X),
                   "unknown methods are rejected at fit")
        for other in ("Huber", "Student"):
            o = getattr(est(), ("Complex" if cplx else "") + (
                "HuberMEstimator" if other == "Huber" else
                "CenteredStudentMLE"))
            if other == "Huber":
                ctx.raises(NotImplementedError,
                           lambda: o(0.5).score(X),
                           "no score for Huber")
            else:
                ctx.true(o(3).score(X) is None, "no score before the fit")
    return h


def df_positive(cplx):
    """a nonpositive number of degrees of freedom is refused"""
    def h(ctx):
        o = est().ComplexCenteredStudentMLE if cplx else \
            est().CenteredStudentMLE
        df = ctx.real("df", lo=-4, hi=4)
        X = ctx.data("x", (2, 1), cplx)
        if bool(df <= 0):
            ctx.raises(AttributeError, lambda: o(df).fit(X), "df <= 0")
        else:
            m = o(df, **ITER).fit(X, init=ctx.spd("s", 1, cplx))
            ctx.true(m.covariance_.shape == (1, 1), "df > 0")
    return h


def instances(tier):
    out = []
    for k in ("tyler", "student", "huber", "empirical"):
        for c in (False, True):
            n = "%s-%s" % (k, tag(c))
            hub = k == "huber"
            widened(out, n + "-attributes", lambda N, p: attributes(n, N, p),
                    ((130, 2), (1030, 1)), free=(-1,))
            widened(out, n + "-refit", lambda N, p: refit(n, N, p),
                    ((40, 1),) if hub else ((40, 2), (6, 3)),
                    free=(-1,))
            N, p = (2, 2)
            if k == "empirical":
                N = 3
            out.append(Instance(n + "-attributes", attributes(n, N, p),
                                bounds="N=%d,p=2, 1 step" % N))
            if not hub:
                out.append(Instance(n + "-diagonal", psd(n, N, p),
                                    bounds="N=%d,p=2, 1 step" % N))
            out.append(Instance(n + "-refit", refit(n, 1 if hub else N,
                                                    1 if hub else 2),
                                bounds="N=%d,p=%d, 1 step" % (
                                    1 if hub else N, 1 if hub else 2)))
            if k != "empirical":
                out.append(Instance(n + "-restart", restart(
                    n, 1 if hub else N, 1), bounds="N=%d,p=1, 1 step" % (
                        1 if hub else N)))
            for how in ("set_params", "attribute", "clone"):
                out.append(Instance(
                    "%s-%s" % (n, how), params(n, 1 if hub else N,
                                               1 if hub else 2, how),
                    bounds="p<=2, 1 step"))
    for c in (False, True):
        out.append(Instance("method-" + tag(c), method(c), bounds="N=2,p=1"))
        out.append(Instance("df-" + tag(c), df_positive(c),
                            bounds="N=2,p=1"))
    return out
