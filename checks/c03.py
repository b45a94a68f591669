from .common import *

PROPERTY = "C03"


def fun(cplx):
    return est().complex_student_t_mle_fixed_point if cplx else \
        est().student_t_mle_fixed_point


def cls(cplx):
    return est().ComplexCenteredStudentMLE if cplx else \
        est().CenteredStudentMLE


def step(N, p, cplx, how="spec", via="fun"):
    """one step; the weights are those of the scipy (stacked) t density"""
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        S, iS = spd_inv(ctx, "s", p, cplx, how)
        df = ctx.real("df", pos=True, lo=0.5, hi=6)
        d = df / 2 if cplx else df
        if via == "fun":
            out, _, it = fun(cplx)(X, df, init=S, tol=NEVER, iter_max=1)
        else:
            e = cls(cplx)(df, tol=NEVER, iter_max=1).fit(X, init=S)
            out, it = e.covariance_, e.iteration_
        w = [(d + p) / (d + quad(X[i], iS)) for i in range(N)]
        ctx.equal(out, mean_outer(X, w, fr(ctx, 1, N)), "Student-t step")
        ctx.equal(it, 1, "iteration count")
    return h


def score_eq(cplx, p=1):
    """S - step(S) is the score of the scipy t likelihood: at p = 1 the
    derivative of the log-likelihood in the scale s equals
    N (step(s) - s) / (c s^2)"""
    def h(ctx):
        from scipy.stats import multivariate_t
        N = 2
        X = ctx.data("x", (N, 1), cplx)
        df = ctx.real("df", pos=True, lo=0.5, hi=6)

        def ll():
            s = ctx.real("s", pos=True)
            S = ctx.array([[s]], "c" if cplx else "f")
            m = prob().complex_multivariate_t(loc=None, shape=S, df=df)
            return m.logpdf(X).sum()
        g = ctx.partial(ll, "s") if "s" in getattr(
            ctx, "inputs", ctx.values if not ctx.sym else {}) else None
        if g is None:
            ll()
            g = ctx.partial(ll, "s")
        s = ctx.real("s", pos=True)
        S = ctx.array([[s]], "c" if cplx else "f")
        out, _, _ = fun(cplx)(X, df, init=S, tol=NEVER, iter_max=1)
        c = 1 if cplx else 2
        ctx.equal(c * s * s * g, N * (out[0, 0].real - s),
                  "step follows the likelihood's score", tol=1e-5)
    return h


def start(N, p, cplx):
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        df = ctx.real("df", pos=True, lo=0.5, hi=6)
        S = ctx.hermitise(mean_outer(X, [1] * N, fr(ctx, 1, N)))
        a, _, _ = fun(cplx)(X, df, tol=NEVER, iter_max=0)
        ctx.equal(a, S, "starts at the empirical second moment")
        a, _, _ = fun(cplx)(X, df, tol=NEVER, iter_max=1)
        b, _, _ = fun(cplx)(X, df, init=S, tol=NEVER, iter_max=1)
        ctx.equal(a, b, "default start")
    return h


def compose(N, p, cplx, k):
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        df = ctx.real("df", pos=True, lo=0.5, hi=6) if k < 9 else 3
        S = ctx.spd("s", p, cplx)
        b = S
        for _ in range(k):
            b, _, _ = fun(cplx)(X, df, init=b, tol=NEVER, iter_max=1)
        a, _, it = fun(cplx)(X, df, init=S, tol=NEVER, iter_max=k)
        ctx.equal(a, b, "composition of steps")
    return h


def bad_df(cplx):
    def h(ctx):
        df = ctx.real("df", lo=-3, hi=0)
        ctx.assume(df <= 0)
        X = ctx.data("x", (2, 1), cplx)
        ctx.raises(AttributeError, lambda: fun(cplx)(X, df, iter_max=1),
                   "non-positive degrees of freedom are refused")
    return h


def instances(tier):
    out = []
    for c in (False, True):
        t = tag(c)
        widened(out, "%s-step" % t, lambda N, p: step(N, p, c))
        widened(out, "%s-class" % t, lambda N, p: step(N, p, c, via="cls"),
                ((130, 2),))
        out.append(Instance("%s-long-N1-p1" % t, compose(1, 1, c, 40),
                            bounds="N=p=1, 40 steps, 3 degrees of freedom"))
        out += [
            Instance("%s-step-N2-p2" % t, step(2, 2, c), bounds="N=2,p=2"),
            Instance("%s-class-N2-p2" % t, step(2, 2, c, via="cls"),
                     bounds="N=2,p=2"),
            Instance("%s-step-N4-p1" % t, step(4, 1, c), bounds="N=4,p=1"),
            Instance("%s-step-N3-p3-diag" % t, step(3, 3, c, "diag"),
                     bounds="N=3,p=3, diagonal start"),
            Instance("%s-score-p1" % t, score_eq(c), bounds="N=2,p=1"),
            Instance("%s-start-N2-p2" % t, start(2, 2, c), bounds="N=2,p=2"),
            Instance("%s-compose2-p2" % t, compose(2, 2, c, 2),
                     bounds="N=2,p=2, 2 steps", core=False),
            Instance("%s-compose3-p1" % t, compose(2, 1, c, 3),
                     bounds="N=2,p=1, 3 steps"),
            Instance("%s-bad-df" % t, bad_df(c), bounds="all df <= 0"),
            Instance("%s-step-N2-p3" % t, step(2, 3, c), core=False,
                     bounds="N=2,p=3"),
        ]
    return out
