import copy
from .common import *
from .geometry import *
from .c25 import leafs

PROPERTY = "C32"
SCHEDULES = ("inverse iteration", "constant")


def to_cov(ctx, sp, own):
    """estimate -> covariance; None for the default"""
    if sp.__class__ is Leaf and sp.kind != "spv" and sp.k == 1:
        return (lambda e: 1 * e) if own else None
    if isinstance(sp, Kron) and sp.k == 1:
        if sp.a * sp.b > 2:
            return lambda e: e[1]
        return lambda e: np.kron(e[0], e[1])
    return lambda e: ctx.eye(2, "c")


def one_step(sp, how, schedule, form, done=0, ag=False):
    """the step is taken along minus the gradient the user's function
    returns, of any container type"""
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        u = sp.vec(ctx, x, "u", "diag")
        lr = ctx.real("lr", pos=True)
        seen = []

        def rgrad(X, e):
            seen.append((X, e))
            if form == "list":
                return [a.copy() for a in u.arr]
            if form == "tuple":
                return tuple(a.copy() for a in u.arr)
            return u.arr.copy()
        f = to_cov(ctx, sp, form == "own")
        est = online().StochasticGradientCovarianceEstimator(
            m, rgrad, lr, estimatetocov=f)
        est.set_estimate(x.arr)
        X = ctx.cplx("X", (2, 2))
        X0 = X.copy()
        r = est.update(X, schedule)
        ctx.true(r is est, "returns itself")
        ctx.true(len(seen) == 1, "one gradient evaluation")
        ctx.equal(seen[0][0], X0, "gradient of the batch")
        for a, b in zip(leafs(list(seen[0][1]) if isinstance(
                seen[0][1], (list, tuple)) else seen[0][1]), leafs(x.arr)):
            ctx.equal(a, b, "gradient at the estimate")
        step = [-lr * a for a in leafs(u.arr)]
        want = m.retr(x.arr, step if hasattr(sp, "leaves") else step[0])
        for a, b in zip(leafs(est.estimate_), leafs(want)):
            ctx.equal(a, b, "retraction of minus the gradient step")
        ctx.equal(est.get_params(deep=False)["lrate"], lr, "learning rate kept")
    return h


def kept_gradient(form, sched, steps):
    """the function returns arrays the user keeps"""
    def h(ctx):
        lr = ctx.real("lr", pos=True)
        U = [ctx.data("u%d" % i, (2, 2), True) for i in range(2)]
        U0 = [u.copy() for u in U]
        give = dict(list=list(U), tuple=tuple(U), array=U[0])[form]
        x0 = ctx.herm("x", 2, True)

        class Flat:
            def retr(self, x, v):
                if isinstance(v, (list, tuple)):
                    return [a + b for a, b in zip(x, v)]
                return x + v
        est = online().StochasticGradientCovarianceEstimator(
            Flat(), lambda X, e: give, lr,
            estimatetocov=lambda e: e[0] if form != "array" else e)
        est.set_estimate(x0 if form == "array" else [x0, x0 + 1])
        for i in range(steps):
            est.update(ctx.cplx("X%d" % i, (1, 2)), sched)
        t = 0
        for i in range(steps):
            t = t + (lr / (i + 1) if sched == "inverse iteration" else lr)
        got = est.estimate_ if form != "array" else [est.estimate_]
        for i, g in enumerate(got):
            ctx.equal(g, x0 + i - t * U0[i], "sum of the steps")
        for a, b in zip(give if form != "array" else [give], U0):
            ctx.equal(a, b, "the user's gradient is left alone")
    return h


def together(scheds, order):
    """estimators alive at the same time do not count each other's steps"""
    def h(ctx):
        class Flat:
            def retr(self, x, v):
                return x + v
        n = len(scheds)
        lr = [ctx.real("lr%d" % i, pos=True) for i in range(n)]
        g = [ctx.real("g%d" % i) for i in range(n)]
        x = [ctx.herm("x%d" % i, 2, True) for i in range(n)]

        def make(i):
            e = online().StochasticGradientCovarianceEstimator(
                Flat(), lambda X, e: g[i] * x[i], lr[i],
                estimatetocov=lambda e: e)
            return e.set_estimate(x[i].copy()) or e
        ests = [make(i) for i in range(n)]
        t, k = [0] * n, [0] * n
        for j, i in enumerate(order):
            ests[i].update(ctx.cplx("X%d" % j, (1, 2)), scheds[i])
            k[i] += 1
            t[i] = t[i] + (lr[i] / k[i] if scheds[i] == SCHEDULES[0]
                           else lr[i])
            for q in range(n):
                ctx.equal(ests[q].estimate_, (1 - t[q] * g[q]) * x[q],
                          "its own steps only")
    return h


def schedule(sp, how, sched, steps):
    """learning rate of every step of a sequence of updates"""
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        lr = ctx.real("lr", pos=True)
        g = ctx.reals("g", (steps,))
        taken = []
        real_retr = m.retr

        class Spy:
            def __getattr__(self, n):
                return getattr(m, n)

            def retr(self, p, v):
                taken.append(v)
                return p
        k = [0]

        def rgrad(X, e):
            k[0] += 1
            return g[k[0] - 1] * e
        est = online().StochasticGradientCovarianceEstimator(
            Spy(), rgrad, lr, estimatetocov=to_cov(ctx, sp, False))
        est.set_estimate(x.arr)
        X = ctx.cplx("X", (1, 1))
        for i in range(steps):
            est.update(X, sched)
        for i in range(steps):
            t = lr / (i + 1) if sched == "inverse iteration" else lr
            ctx.equal(taken[i], -t * g[i] * x.arr,
                      "step length of update %d" % i)
    return h


def descends(sp, how):
    """for a function with Euclidean gradient g its derivative with respect
    to the learning rate is minus the squared gradient norm"""
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        g = sp.ambient(ctx, "g")
        r = m.egrad2rgrad(x.arr, g)
        n2 = sp.metric(ctx, sp.lower(ctx, x, r), sp.lower(ctx, x, r))
        ctx.real("rate", pos=False, lo=-.5, hi=.5)
        s = 0
        for i, l in enumerate(parts(sp)):
            def f():
                m = sp.make(ctx)
                x = sp.pt(ctx, "x", how)
                g = sp.ambient(ctx, "g")
                est = online().StochasticGradientCovarianceEstimator(
                    m, lambda X, e: m.egrad2rgrad(e, g),
                    ctx.real("rate", lo=-.5, hi=.5),
                    estimatetocov=lambda e: ctx.eye(2, "c"))
                est.set_estimate(x.arr)
                est.update(ctx.zeros((1, 1), "c"), "constant")
                return leafs(est.estimate_)[i]
            d = ctx.partial(f, "rate", at=0)
            q = l.euclid(ctx, leafs(g)[i], Vec(d))
            s = s + (q.sum() if l.kind == "spv" else q)
        ctx.equal(s, -(n2.sum() if getattr(sp, "kind", "") == "spv"
                       else n2), "descends at the rate of the squared norm",
                  tol=None if ctx.sym else 1e-5)
    return h


def consistent(p, c, how):
    """covariance and precision follow the estimate"""
    def h(ctx):
        sp = Leaf("hpd", p)
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        u = sp.vec(ctx, x, "u", "diag")
        lr = ctx.real("lr", pos=True)
        s = ctx.real("s", pos=True)
        f = (lambda e: s * e) if c else None
        est = online().StochasticGradientCovarianceEstimator(
            m, lambda X, e: u.arr, lr, estimatetocov=f)
        s = s if c else 1
        est.set_estimate(x.arr)
        for i in range(2):
            if i:
                est.update(ctx.zeros((1, p), "c"), "constant")
            ctx.equal(est.covariance_, s * est.estimate_,
                      "covariance of the estimate")
            ctx.equal(est.get_precision() @ est.covariance_,
                      ctx.eye(p, "c"), "precision is the inverse")
    return h


def uninitialised(ctx):
    """without an estimate an update does nothing"""
    called = []
    est = online().StochasticGradientCovarianceEstimator(
        man().HermitianPositiveDefinite(1), lambda X, e: called.append(1),
        ctx.real("lr", pos=True))
    r = est.update(ctx.cplx("X", (1, 1)), "constant")
    ctx.true(r is est and est.estimate_ is None and not called,
             "nothing to update")


def instances(tier):
    out = [Instance("uninitialised", uninitialised, bounds="p=1")]
    for form in ("array", "list", "tuple"):
        for sched in ("inverse iteration", "constant"):
            for n in (1, 3):
                out.append(Instance("kept-%s-%s-%d" % (
                    form, sched.split()[0], n), kept_gradient(
                        form, sched, n), bounds="p=2, %d updates" % n))
    a, b = SCHEDULES
    for nm, sc, order in (("inverse", (a, a), (0, 1, 0, 0, 1)),
                          ("mixed", (b, a), (0, 0, 1, 0, 1, 1)),
                          ("after", (a, a), (0, 0, 0, 1, 1)),
                          ("three", (a, a, b), (2, 1, 0, 2, 1, 0, 1))):
        out.append(Instance("together-" + nm, together(sc, order),
                            bounds="p=2, %d updates of %d estimators" % (
                                len(order), len(sc))))
    T = tier != "quick"
    for sp, hows in spaces(tier, spvk=False):
        for how in hows:
            if how == "chol":
                continue
            b = "%s, %s frames" % (sp.name, how)
            forms = ("list", "tuple", "vector") if hasattr(sp, "leaves") \
                else ("own", "array")
            if sp.__class__ is Leaf and sp.k > 1:
                continue
            for s in SCHEDULES:
                for f in forms:
                    out.append(Instance(
                        "step-%s-%s-%s-%s" % (sp.name, how, f, s.split()[0]),
                        one_step(sp, how, s, f), bounds=b))
            if sp.__class__ is Leaf and sp.n == 1:
                for s in SCHEDULES:
                    n = 4 if not T else 8
                    out.append(Instance(
                        "schedule-%s-%s" % (sp.name, s.split()[0]),
                        schedule(sp, how, s, n), bounds="%d updates" % n))
            if any(l.special and l.n > 1 for l in parts(sp)):
                how = "diag"
            if sp.name == "shpd3" and not T:
                continue
            out.append(Instance("descent-%s-%s" % (sp.name, how),
                                descends(sp, how),
                                bounds="%s, %s frames" % (sp.name, how)))
    for p, how in ((1, "full"), (2, "diag"), (2, "full"), (3, "diag")):
        for c in (False, True):
            out.append(Instance("consistent-p%d-%s%s" % (
                p, how, "-scaled" if c else ""), consistent(p, c, how),
                bounds="p=%d, two states" % p))
    for sp in large_spaces():
        if sp.__class__ is Leaf and sp.k > 1:
            continue
        b = sp.name + ", one entry of each frame and vector and the ends " \
            "of arrays arbitrary"
        for s in SCHEDULES:
            for f in (("list", "tuple", "vector") if hasattr(sp, "leaves")
                      else ("own", "array")):
                out.append(Instance(
                    "step-wide-%s-%s-%s" % (sp.name, f, s.split()[0]),
                    wide(one_step(sp, "full", s, f)), bounds=b))
    for s in SCHEDULES:
        for n in (130, 1030):
            out.append(Instance(
                "schedule-long%d-%s" % (n, s.split()[0]),
                schedule(Leaf("hpd", 1), "full", s, n),
                bounds="%d updates" % n))
    return out
