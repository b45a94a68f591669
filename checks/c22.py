from .common import *

PROPERTY = "C22"


def cost(c):
    return costs().Tyler_cost_complex if c else costs().Tyler_cost_real


def shape_matrix(ctx, p, c, how):
    """Q, Q^-1, log det Q, and a function rebuilding Q"""
    Q, V, r = ctx.spd("Q", p, c, how, ret=True)
    iQ = V @ ctx.diag([1 / (x * x) for x in r], "c" if c else "f") @ H(V)
    ld = 0
    for x in r:
        ld = ld + 2 * ln(ctx, x)
    return Q, iQ, ld


def value(N, p, c, how, ag):
    """p sum log x_i^H Q^-1 x_i + N log det Q"""
    def h(ctx):
        Q, iQ, ld = shape_matrix(ctx, p, c, how)
        X = ctx.data("X", (N, p), c)
        Q0, X0 = Q.copy(), X.copy()
        v = cost(c)(X, Q, ag) if ag else cost(c)(X, Q)
        want = N * ld
        for i in range(N):
            want = want + p * ln(ctx, quad(X0[i], iQ))
        ctx.equal(v, want, "Tyler's cost")
        ctx.true(ctx.kindof(v) == "f", "real number")
        ctx.true(np.ndim(v) == 0, "one number")
        ctx.equal(Q, Q0, "shape matrix untouched")
        ctx.equal(X, X0, "data untouched")
    return h


def invariance(N, p, c, how, ag):
    def h(ctx):
        Q, iQ, ld = shape_matrix(ctx, p, c, how)
        X = ctx.data("X", (N, p), c)
        s = ctx.real("scale", pos=True)
        v = cost(c)(X, Q, autograd=ag)
        ctx.equal(cost(c)(X, s * Q, autograd=ag), v,
                  "rescaling the shape matrix")
        a = ctx.data("a", (N,), c)
        want = v
        for i in range(N):
            m = (a[i] * a[i].conj()).real
            ctx.assume(m > 0)
            want = want + p * ln(ctx, m)
        ctx.equal(cost(c)(a.reshape(N, 1) * X, Q, autograd=ag), want,
                  "rescaling the samples adds a constant")
        if N > 1:
            ctx.equal(cost(c)(X[::-1], Q, autograd=ag), v,
                      "order of the samples")
    return h


def gradient(N, p, c, how):
    """the derivative along any curve of positive definite matrices, so that
    the stationary points are the fixed points of Tyler's equation"""
    def h(ctx):
        names = ["Q_r%d" % i for i in range(p)]
        if how != "diag" and p > 1:
            names += ["Q_c"] + (["Q_u"] if c else [])
        X = ctx.data("X", (N, p), c)
        Q, iQ, ld = shape_matrix(ctx, p, c, how)
        G = N * iQ
        for i in range(N):
            y = iQ @ X[i].reshape(p, 1)
            G = G - (p / quad(X[i], iQ)) * (y @ H(y))

        def f():
            return cost(c)(X, shape_matrix(ctx, p, c, how)[0])

        def point():
            return shape_matrix(ctx, p, c, how)[0]
        for nm in names:
            E = ctx.partial(point, nm)
            want = 0
            for i in range(p):
                for j in range(p):
                    want = want + (G[i, j].conj() * E[i, j]).real
            ctx.equal(ctx.partial(f, nm), want, "derivative along " + nm,
                      tol=None if ctx.sym else 1e-5)
    return h


def same(N, p, how, ag):
    """the complex cost of real data is the real cost"""
    def h(ctx):
        Q, iQ, ld = shape_matrix(ctx, p, False, how)
        X = ctx.reals("X", (N, p))
        r = cost(False)(X, Q, autograd=ag)
        ctx.equal(cost(True)(X, Q, autograd=ag), r, "real data")
        ctx.equal(cost(True)(X + 0j, Q + 0j, autograd=ag), r,
                  "real data stored as complex numbers")
    return h


def backends(N, p, c, how):
    def h(ctx):
        Q, iQ, ld = shape_matrix(ctx, p, c, how)
        X = ctx.data("X", (N, p), c)
        ctx.equal(cost(c)(X, Q, autograd=True), cost(c)(X, Q, autograd=False),
                  "both back ends")
    return h


def embedding(N, p, how):
    """p = 1: the phase-invariant cost depends on moduli only; any p: equal
    to half the real cost of the doubled real form"""
    def h(ctx):
        Q, iQ, ld = shape_matrix(ctx, p, True, how)
        X = ctx.cplx("X", (N, p))
        u = ctx.unit("phase")
        e = u + 1j * ctx.root(1 - u * u)
        ctx.equal(cost(True)(e * X, Q), cost(True)(X, Q), "common phase")
    return h


def refused(N, p, q, c):
    def h(ctx):
        X = ctx.data("X", (N, p), c)
        Q = ctx.spd("Q", q, c, "diag")
        for ag in (False, True):
            ctx.raises(AttributeError, lambda: cost(c)(X, Q, ag),
                       "incompatible sizes are refused")
    return h


def instances(tier):
    out = []
    T = tier != "quick"
    for c in (False, True):
        for p, how in ((1, "diag"), (2, "diag"), (2, "spec"), (3, "diag")) + \
                (((3, "spec"), (4, "diag")) if T else ()):
            for N in ((1, 2, 3) if not T else (1, 2, 3, 4)):
                if p == 3 and how == "spec" and (c or N > 2):
                    continue
                nm = "%s-N%d-p%d-%s" % (tag(c), N, p, how)
                b = "N=%d, p=%d" % (N, p)
                for ag in (False, True):
                    a = "-autograd" if ag else ""
                    out.append(Instance("value-%s%s" % (nm, a),
                                        value(N, p, c, how, ag), bounds=b))
                    if p < 3:
                        out.append(Instance("invariance-%s%s" % (nm, a),
                                            invariance(N, p, c, how, ag),
                                            bounds=b))
                    if not c:
                        out.append(Instance("same-%s%s" % (nm, a),
                                            same(N, p, how, ag), bounds=b))
                out.append(Instance("backends-" + nm, backends(N, p, c, how),
                                    bounds=b))
                if p < 3 and N < 3:
                    out.append(Instance("gradient-" + nm,
                                        gradient(N, p, c, how), bounds=b))
                if c and p < 3:
                    out.append(Instance("phase-" + nm, embedding(N, p, how),
                                        bounds=b))
        for p, q in ((1, 2), (2, 1), (2, 3), (3, 2)):
            out.append(Instance("refused-%s-%d-%d" % (tag(c), p, q),
                                refused(2, p, q, c), bounds="sizes"))
    for c in (False, True):
        t = tag(c)
        for N, p, mode in ((1030, 2, "rot"), (130, 2, "rot"), (3, 6, "rot"),
                           (12, 12, "flat")):
            b = "N=%d, p=%d, two samples and one eigenvalue arbitrary" % (
                N, p)
            nm = "%s-N%d-p%d" % (t, N, p)
            for ag in (False, True):
                a = "-autograd" if ag else ""
                out.append(Instance("value-wide-%s%s" % (nm, a), wide(
                    value(N, p, c, "spec", ag), mode), bounds=b))
                if N < 1000:
                    out.append(Instance("invariance-wide-%s%s" % (nm, a),
                                        wide(invariance(N, p, c, "spec", ag),
                                             mode), bounds=b))
                if not c and N < 1000:
                    out.append(Instance("same-wide-%s%s" % (nm, a), wide(
                        same(N, p, "spec", ag), mode), bounds=b))
            out.append(Instance("backends-wide-" + nm, wide(
                backends(N, p, c, "spec"), mode), bounds=b))
    return out
