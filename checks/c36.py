"""Parameters of the estimators: complete, restorable, effective."""
from .common import *
from .c08 import ITER

PROPERTY = "C36"
AGAIN = 12


class Flat:
    """a user's manifold"""
    def __init__(self, k=1):
        self.k = k

    def retr(self, x, v):
        return x + self.k * v


def build(ctx, name, n=""):
    """class and constructor parameters; n distinguishes two settings"""
    two = bool(n)
    if name == "kronecker-student":
        return struct().KroneckerStudent, dict(
            a=1 if two else 2, b=2 if two else 1,
            df=ctx.real("df" + n, pos=True, lo=0.5, hi=6),
            store_precision=not two, assume_centered=not two,
            verbosity=1 if two else 0)
    if name == "kronecker-mm":
        return struct().KroneckerEllipticalMM, dict(
            a=1 if two else 2, b=2 if two else 1,
            tol=0.5 if two else NEVER, iter_max=2 if two else 1,
            store_precision=not two, verbosity=False)
    if name == "online":
        c = ctx.real("g" + n)
        return online().StochasticGradientCovarianceEstimator, dict(
            manifold=Flat(2 if two else 1),
            rgrad=lambda X, e: c * e + X.T @ X.conj(),
            lrate=ctx.real("lr" + n, pos=True, lo=.2, hi=.6),
            estimatetocov=(lambda e: e @ e.conj().T) if two else None,
            cost=None, verbosity=False)
    if name == "scale":
        return base().RealCovarianceScale, dict(
            store_precision=two, assume_centered=not two)
    if name in ("features", "covariances"):
        cl = base().FeaturesEstimation if name == "features" else \
            base().CovariancesEstimation
        return cl, dict(estimator=est().CenteredStudentMLE(
            ctx.real("df" + n, pos=True, lo=0.5, hi=6), **ITER),
            n_jobs=2 if two else 1)
    for c in (False, True):
        pre = "Complex" if c else ""
        t = "-" + tag(c)
        if name == "tyler" + t:
            return getattr(est(), pre + "TylerShapeMatrix"), dict(
                tol=NEVER, method="fixed-point",
                iter_max=2 if two else 1, normalisation="None" if two else
                "trace", verbosity=False)
        if name == "student" + t:
            return getattr(est(), pre + "CenteredStudentMLE"), dict(
                df=ctx.real("df" + n, pos=True, lo=0.5, hi=6), tol=NEVER,
                iter_max=2 if two else 1, verbosity=False)
        if name == "huber" + t:
            return getattr(est(), pre + "HuberMEstimator"), dict(
                q=quantile(ctx, "q" + n), tol=NEVER,
                iter_max=1, verbosity=False)
        if name == "empirical" + t:
            return (base().ComplexEmpiricalCovariance if c else
                    base().RealEmpiricalCovariance), dict(
                store_precision=not two, assume_centered=two)
    raise KeyError(name)


NAMES = ["kronecker-student", "kronecker-mm", "online", "scale", "features",
         "covariances"] + [k + "-" + t for k in (
             "tyler", "student", "huber", "empirical")
             for t in ("real", "complex")]


def same(ctx, a, b, label):
    if isinstance(b, (bool, int, str)) or b is None or callable(b) or \
            isinstance(b, (Flat,)) or hasattr(b, "get_params"):
        ctx.true(a is b or (type(a) is type(b) and not callable(b) and
                            a == b), label)
    else:
        ctx.equal(a, b, label)


def stored(name):
    """every constructor parameter can be read, printed, copied and set"""
    def h(ctx):
        from sklearn.base import clone
        cl, kw = build(ctx, name)
        _, kw2 = build(ctx, name, "b")
        m = cl(**kw)
        got = m.get_params(deep=False)
        for a, b in kw.items():
            ctx.true(a in got, "%s is a parameter" % a)
            same(ctx, got[a], b, "constructor parameter %s" % a)
        ctx.true(cl.__name__ in repr(m), "printable")
        r = m.set_params(**kw2)
        ctx.true(r is m, "set_params returns the estimator")
        for a, b in kw2.items():
            same(ctx, m.get_params(deep=False)[a], b, "set " + a)
            same(ctx, getattr(m, a), b, "attribute " + a)
        # clones: nested estimators and user objects are copied, numbers kept
        c = clone(cl(**kw), safe=False)
        ctx.true(type(c) is cl, "class of the clone")
        for a, b in kw.items():
            if isinstance(b, Flat):
                ctx.true(getattr(c, a).k == b.k, "cloned " + a)
            elif hasattr(b, "get_params"):
                ctx.equal(getattr(c, a).df, b.df, "nested parameter")
            elif not callable(b):
                same(ctx, getattr(c, a), b, "cloned " + a)
        if "estimator" in kw:
            d = ctx.real("dn", pos=True, lo=0.5, hi=6)
            m = cl(**kw)
            m.set_params(estimator__df=d)
            ctx.equal(m.get_params()["estimator__df"], d, "nested parameter")
    return h


def kept(ctx, m, kw):
    """fitting leaves the parameters alone"""
    for a, b in kw.items():
        same(ctx, m.get_params(deep=False)[a], b, "parameter %s after a fit"
             % a)


def student(how):
    """the Kronecker Student fit hands over the problem of its current
    parameters"""
    def h(ctx):
        from sklearn.base import clone
        cl, kw = build(ctx, "kronecker-student")
        _, kw2 = build(ctx, "kronecker-student", "b")
        X = ctx.data("x", (2, 2), True)
        A, B = entries(ctx, "A", 2), entries(ctx, "B", 1)
        seen = []

        def reply(problem, x):
            seen.append((problem, x))
            return A, B
        m = current(ctx, cl, kw, kw2, how)
        with solver_stub(reply):
            m.fit(X)
            f = cl(**kw).fit(X)
        (p, x), (q, y) = seen
        ctx.equal(x[0], y[0], "start of A")
        ctx.equal(x[1], y[1], "start of B")
        ctx.equal(p.cost([A, B]), q.cost([A, B]), "cost")
        g, e = p.egrad([A, B]), q.egrad([A, B])
        ctx.equal(g[0], e[0], "gradient along A")
        ctx.equal(g[1], e[1], "gradient along B")
        # tangent vectors at a point with unit determinant
        D = ctx.zeros((2, 2), "c")
        r = ctx.real("r", pos=True)
        D[0, 0], D[1, 1] = r, 1 / r
        u, v = ctx.real("u"), ctx.real("v")
        T = ctx.zeros((2, 2), "c")
        T[0, 0], T[1, 1] = u * r, -u / r
        V = ctx.zeros((1, 1), "c")
        V[0, 0] = v
        ctx.equal(p.manifold.inner([D, B], [T, V], [T, V]),
                  q.manifold.inner([D, B], [T, V], [T, V]),
                  "metric of the optimiser")
        ctx.equal(p.manifold.dim, q.manifold.dim, "dimension")
        kept(ctx, f, kw)
        ctx.equal(m.covariance_, f.covariance_, "estimate")
        ctx.equal(m.location_, f.location_, "location")
        ctx.true((m.precision_ is None) == (f.precision_ is None),
                 "precision stored")
    return h


def current(ctx, cl, kw, kw2, how):
    """an estimator that has come to the parameters kw"""
    from sklearn.base import clone
    if how == "clone":
        return clone(cl(**kw), safe=False)
    m = cl(**kw2)
    if how == "set_params":
        m.set_params(**kw)
    else:
        for a, b in kw.items():
            setattr(m, a, b)
    return m


def online_fit(how):
    def h(ctx):
        cl, kw = build(ctx, "online")
        _, kw2 = build(ctx, "online", "b")
        X = ctx.data("x", (2, 2), True)
        x0 = ctx.herm("s", 2, True)
        m = current(ctx, cl, kw, kw2, how)
        f = cl(**kw)
        ctx.true(m.estimate_ is None, "nothing estimated yet")
        m.fit(X, init=x0)
        f.fit(X, init=x0)
        ctx.equal(m.estimate_, f.estimate_, "estimate")
        kept(ctx, f, kw)
        ctx.equal(m.covariance_, f.covariance_, "covariance")
    return h


def online_later():
    """parameters changed between two fits, and the clone of a fitted
    estimator"""
    def h(ctx):
        from sklearn.base import clone
        cl, kw = build(ctx, "online")
        X = ctx.data("x", (1, 2), True)
        Y = ctx.data("y", (1, 2), True)
        x0 = ctx.herm("s", 2, True)
        l2 = ctx.real("l2", pos=True, lo=.2, hi=.6)
        m = cl(**kw)
        m.fit(X, init=x0, lr_update="constant")
        e1 = m.estimate_
        m.set_params(lrate=l2)
        m.fit(Y, lr_update="constant")
        f = cl(**dict(kw, lrate=l2)).fit(Y, init=e1, lr_update="constant")
        ctx.equal(m.estimate_, f.estimate_, "current rate")
        c = clone(m, safe=False)
        ctx.true(c.estimate_ is None, "a clone has no estimate")
        c.fit(X, init=x0)
        f = cl(**dict(kw, lrate=l2)).fit(X, init=x0)
        ctx.equal(c.estimate_, f.estimate_, "a clone starts afresh")
    return h


def mm_fit(how):
    def h(ctx):
        cl, kw = build(ctx, "kronecker-mm")
        _, kw2 = build(ctx, "kronecker-mm", "b")
        X = ctx.data("x", (2, 2), True)
        m = current(ctx, cl, kw, kw2, how).fit(X)
        f = cl(**kw).fit(X)
        kept(ctx, f, kw)
        ctx.equal(m.A_, f.A_, "A_")
        ctx.equal(m.B_, f.B_, "B_")
        ctx.equal(m.covariance_, f.covariance_, "estimate")
        ctx.true((m.precision_ is None) == (f.precision_ is None),
                 "precision stored")
    return h


def batches(name, how):
    """the batch transformers use the current estimator and its current
    parameters, whose own settings are left as they are"""
    def h(ctx):
        cl, kw = build(ctx, name)
        _, kw2 = build(ctx, name, "b")
        X = ctx.data("x", (2, 2, 1))
        for t in range(2):
            for i in range(2):
                ctx.assume(X[t, i, 0] * X[t, i, 0] > 0)
        d0 = kw["estimator"].df
        if how == "nested":
            m = cl(**kw2)
            m.set_params(estimator__df=d0, n_jobs=1)
        else:
            m = current(ctx, cl, kw, kw2, how)
        R = m.fit(X).transform(X)
        if name == "features":
            R = R.export()
        ctx.equal(m.estimator.df, d0, "parameters are left alone")
        for t in range(2):
            f = est().CenteredStudentMLE(d0, **ITER).fit(X[t])
            ctx.equal(R[t], f.covariance_, "trial by trial")
    return h


def scale():
    def h(ctx):
        cl, kw = build(ctx, "scale")
        X = ctx.data("x", (2, 2))
        ctx.raises(NotImplementedError, lambda: cl(**kw).fit(X),
                   "no fit of its own")
        m = cl(**kw)
        C, s = ctx.spd("s", 2), ctx.data("t", (2, 1))
        m.covariance_ = C
        m.scale_ = s
        ctx.equal(m.get_scale(), s, "scale")
        r = m.transform(X)
        ctx.equal(r[0], C, "covariance first")
        ctx.equal(r[1], s, "scale second")
    return h


def instances(tier):
    out = [Instance("stored-" + n, stored(n), bounds="two settings")
           for n in NAMES]
    for how in ("set_params", "attribute", "clone"):
        out.append(Instance("student-" + how, student(how),
                            bounds="a=2,b=1,N=2"))
        out.append(Instance("online-" + how, online_fit(how),
                            bounds="p=2, 2 samples"))
        out.append(Instance("mm-" + how, mm_fit(how), bounds="a=2,b=1,N=2"))
        for n in ("features", "covariances"):
            out.append(Instance(n + "-" + how, batches(n, how),
                                bounds="2 trials, N=2, p=1"))
    for n in ("features", "covariances"):
        out.append(Instance(n + "-nested", batches(n, "nested"),
                            bounds="2 trials, N=2, p=1"))
    out.append(Instance("online-later", online_later(),
                        bounds="p=2, 2 fits"))
    out.append(Instance("scale", scale(), bounds="p=2"))
    return out
