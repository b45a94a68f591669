from .common import *

PROPERTY = "C01"


def cls(cplx):
    return est().ComplexTylerShapeMatrix if cplx else est().TylerShapeMatrix


def fun(cplx):
    return est().complex_tyler_shape_matrix_fixedpoint if cplx else \
        est().tyler_shape_matrix_fixedpoint


def expected(ctx, X, iS):
    N, p = X.shape
    return mean_outer(X, [1 / quad(X[i], iS) for i in range(N)],
                      fr(ctx, p, N))


def step(N, p, cplx, how="spec", via="fun"):
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        S, iS = spd_inv(ctx, "s", p, cplx, how)
        if via == "fun":
            out, err, it = fun(cplx)(X, init=S, tol=NEVER, iter_max=1)
        else:
            e = cls(cplx)(tol=NEVER, iter_max=1).fit(X, init=S)
            out, it = e.covariance_, e.iteration_
        ctx.equal(out, expected(ctx, X, iS), "one step of Tyler's map")
        ctx.equal(it, 1, "iteration count")
    return h


def start(N, p, cplx):
    """without init the iteration starts at the empirical second moment"""
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        S = second_moment(X.T.conj().T)
        S = ctx.hermitise(mean_outer(X, [1] * N, fr(ctx, 1, N)))
        a, _, _ = fun(cplx)(X, tol=NEVER, iter_max=1)
        b, _, _ = fun(cplx)(X, init=S, tol=NEVER, iter_max=1)
        ctx.equal(a, b, "default start")
    return h


def start0(N, p, cplx):
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        S = mean_outer(X, [1] * N, fr(ctx, 1, N))
        a, _, it = fun(cplx)(X, tol=NEVER, iter_max=0)
        ctx.equal(a, S, "no iteration: empirical second moment")
        ctx.equal(it, 0, "no iteration")
    return h


def compose(N, p, cplx, k):
    """k steps are k times one step"""
    def h(ctx):
        X = ctx.data("x", (N, p), cplx)
        S = ctx.spd("s", p, cplx)
        f = fun(cplx)
        b = S
        for _ in range(k):
            b, _, _ = f(X, init=b, tol=NEVER, iter_max=1)
        a, _, it = f(X, init=S, tol=NEVER, iter_max=k)
        ctx.equal(a, b, "composition of steps")
        ctx.equal(it, k, "iteration count")
    return h


def moving(n1, n2, p, cplx, ks):
    """samples along axes: every step multiplies the start by p times the
    share of the samples on that axis"""
    def h(ctx):
        N = n1 + n2
        X = ctx.zeros((N, p), "c" if cplx else "f")
        z = ctx.data("z", (3,), cplx)
        for i in range(N):
            v = z[0] if i == 0 else z[1] if i == N - 1 else z[2] \
                if i == 1 else ctx.frac(i % 7 + 1, 3)
            X[i, 0 if i < n1 else 1] = v
        for i in (0, 1, 2):
            ctx.assume((z[i] * z[i].conj()).real > 0)
        s = [ctx.real("s%d" % i, pos=True) for i in range(p)]
        S = ctx.diag(s, "c" if cplx else "f")
        for k in ks:
            a, _, it = fun(cplx)(X, init=S, tol=NEVER, iter_max=k)
            w = ctx.diag([s[0] * fr(ctx, p * n1, N) ** k,
                          s[1] * fr(ctx, p * n2, N) ** k],
                         "c" if cplx else "f")
            ctx.equal(a, w, "step %d" % k)
            ctx.equal(it, k, "iteration count")
    return h


def instances(tier):
    out = []
    for c in (False, True):
        t = tag(c)
        widened(out, "%s-step" % t, lambda N, p: step(N, p, c))
        widened(out, "%s-class" % t, lambda N, p: step(N, p, c, via="cls"),
                ((130, 3),))
        out.append(Instance("%s-moving-short" % t, moving(
            2, 1, 2, c, range(1, 16)), bounds="3 samples along the axes, "
            "1 to 15 steps"))
        out.append(Instance("%s-moving-long" % t, moving(
            11, 10, 2, c, (30, 60, 130)), bounds="21 samples along the axes, "
            "30, 60, 130 steps"))
        out.append(Instance("%s-long-N1-p1" % t, compose(1, 1, c, LONG),
                            bounds="N=p=1, %d steps" % LONG))
        out += [
            Instance("%s-step-N2-p2" % t, step(2, 2, c), bounds="N=2,p=2"),
            Instance("%s-class-N2-p2" % t, step(2, 2, c, via="cls"),
                     bounds="N=2,p=2"),
            Instance("%s-step-N3-p2" % t, step(3, 2, c), bounds="N=3,p=2"),
            Instance("%s-step-N4-p1" % t, step(4, 1, c), bounds="N=4,p=1"),
            Instance("%s-step-N3-p3-diag" % t, step(3, 3, c, "diag"),
                     bounds="N=3,p=3, diagonal start"),
            Instance("%s-start-N3-p2" % t, start(3, 2, c),
                     bounds="N=3,p=2"),
            Instance("%s-start0-N3-p3" % t, start0(3, 3, c),
                     bounds="N=3,p=3"),
            Instance("%s-compose2-N2-p2" % t, compose(2, 2, c, 2),
                     bounds="N=2,p=2, 2 steps"),
            Instance("%s-compose3-N3-p2" % t, compose(3 - c, 2, c, 3),
                     bounds="N=3 (complex 2),p=2, 3 steps", core=False),
            Instance("%s-compose3-N2-p1" % t, compose(2, 1, c, 3),
                     bounds="N=2,p=1, 3 steps"),
            Instance("%s-step-N2-p3" % t, step(2, 3, c), core=False,
                     bounds="N=2,p=3"),
            Instance("%s-step-N5-p2" % t, step(5, 2, c), core=False,
                     bounds="N=5,p=2"),
            Instance("%s-step-N5-p4-diag" % t, step(4, 4, c, "diag"),
                     bounds="N=4,p=4, diagonal start", core=False)]
    return out
