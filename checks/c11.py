from .common import *
from .c08 import makers, ITER, opts
from .c10 import FA, batch

PROPERTY = "C11"
TOL = 1e-5


def upper(M, p):
    return [M[i, j] for i in range(p) for j in range(i, p)]


def flat(M):
    return M.reshape(-1)


def general(shapes, n, c):
    """items without symmetry: every entry, row by row"""
    def h(ctx):
        fa = FA(shapes)
        d = batch(ctx, "x", n, shapes, c)
        for x, s in zip(d, shapes):
            if len(s) == 2 and s[0] == s[1] and s[0] > 1:
                # neither symmetric nor skew-symmetric
                e = x[0, 0, 1].real
                f = x[0, 1, 0].real
                ctx.assume(e - f > 0.1)
                ctx.assume(e + f > 0.1)
        fa.append(d)
        v = fa.vectorize()
        k = sum(int(np.prod(s)) for s in shapes)
        ctx.equal(v.shape, (n, k), "shape")
        for j in range(n):
            pos = 0
            for x, s in zip(d, shapes):
                m = int(np.prod(s))
                ctx.equal(v[j, pos:pos + m], flat(x[j]), "entries of an item")
                pos += m
        ctx.true(ctx.kindof(v) in ("c" if c else "fi" if ctx.integral
                                    else "f"), "kind")
    return h


def structured(kind, p, n, c, grown=False):
    """(skew-)Hermitian items: the upper triangle, which determines them"""
    def h(ctx):
        sg = 1 if kind == "sym" else -1
        B = ctx.data("x", (n, p, p), c)
        d = []
        for j in range(n):
            d.append(B[j] + sg * H(B[j]))
        fa = FA([(p, p), (2,)])
        w = ctx.data("w", (n, 2), c)
        for j in range(n):
            fa.append([d[j], w[j]])
        if n == 1:
            # one append: a second one, of the same item, changes nothing
            pass
        v = fa.vectorize()
        k = p * (p + 1) // 2
        ctx.equal(v.shape, (n, k + 2), "half of the entries")
        for j in range(n):
            u = upper(d[j], p)
            for m in range(k):
                ctx.equal(v[j, m], u[m], "upper triangle, row by row")
            ctx.equal(v[j, k:], w[j], "next component")
    return h


def decision(c):
    """every 2x2 item: reduced only if nothing is lost"""
    def h(ctx):
        X = ctx.data("x", (1, 2, 2), c)
        fa = FA([(2, 2)])
        fa.append(X)
        v = fa.vectorize()
        M = X[0]
        S = M - H(M)
        K = M + H(M)

        def small(D, tol):
            r = []
            for i in range(2):
                for j in range(i, 2):
                    z = D[i, j]
                    for e in (z.real, z.imag) if c else (z,):
                        r += [e < tol, -tol < e]
            return r
        if v.shape == (1, 3):
            ctx.equal(v[0, 0], M[0, 0], "entry")
            ctx.equal(v[0, 1], M[0, 1], "entry")
            ctx.equal(v[0, 2], M[1, 1], "entry")
            if all(bool(b) for b in small(S, 2 * TOL)):
                return
            for b in small(K, 2 * TOL):
                ctx.true(b, "reduced items are symmetric or skew")
        else:
            ctx.equal(v.shape, (1, 4), "shape")
            ctx.equal(v[0], flat(M), "entries")
            ctx.true(not all(bool(b) for b in small(S, TOL / 2)),
                     "symmetric items are reduced")
            ctx.true(not all(bool(b) for b in small(K, TOL / 2)),
                     "skew items are reduced")
    return h


def nearly(p, n, c):
    """items that are Hermitian but for one entry of one of them"""
    def h(ctx):
        t = ctx.real("t")
        j = ctx.choose("item", (0, n - 1))
        i, k = ctx.choose("entry", ((0, p - 1), (p - 1, 0), (p - 2, p - 1)))
        X = ctx.zeros((n, p, p), "c" if c else "f")
        for m in range(n):
            for a in range(p):
                for b in range(a, p):
                    z = ctx.frac(3 * a + b + m, 2)
                    w = 1j * (b - a) if c else 0
                    X[m, a, b], X[m, b, a] = z + w, z - w
        X[j, i, k] = X[j, i, k] + t
        fa = FA([(p, p)])
        fa.append(X)
        v = fa.vectorize()
        if v.shape == (n, p * (p + 1) // 2):
            ctx.true(t < 2 * TOL, "nothing is lost")
            ctx.true(-2 * TOL < t, "nothing is lost")
            for m in (0, n - 1):
                u = upper(X[m], p)
                for q in range(len(u)):
                    ctx.equal(v[m, q], u[q], "upper triangle, row by row")
        else:
            ctx.equal(v.shape, (n, p * p), "shape")
            for m in (0, n - 1):
                ctx.equal(v[m], flat(X[m]), "entries")
            ctx.true(not (bool(t < TOL / 2) and bool(-TOL / 2 < t)),
                     "Hermitian items are reduced")
    return h


def mixed(c):
    """one item without symmetry: all items are kept whole"""
    def h(ctx):
        A = ctx.herm("a", 2, c)
        B = ctx.data("b", (2, 2), c) * 1.0    # one type of numbers
        ctx.assume(B[0, 1].real - B[1, 0].real > 0.1)
        ctx.assume(B[0, 1].real + B[1, 0].real > 0.1)
        first = ctx.choose("first", (0, 1))
        it = [A, B] if first == 0 else [B, A]
        fa = FA([(2, 2)])
        for M in it:
            fa.append(M)
        v = fa.vectorize()
        ctx.equal(v.shape, (2, 4), "shape")
        for j in range(2):
            ctx.equal(v[j], flat(it[j]), "entries")
    return h


def onlyfilled(c):
    """the free part of the storage does not show"""
    def h(ctx):
        fa = FA([(2, 2)])
        A = ctx.data("a", (2, 2), c)
        ctx.assume(A[0, 1].real - A[1, 0].real > 0.1)
        ctx.assume(A[0, 1].real + A[1, 0].real > 0.1)
        for _ in range(3):
            fa.append(A)
        v = fa.vectorize()
        ctx.equal(v.shape, (3, 4), "shape")
        for j in range(3):
            ctx.equal(v[j], flat(A), "entries")
    return h


# ------------------------------------------------------------- feature batches
def scale_estimator(point=None):
    """covariance and scale of a trial (second moment, total power)"""
    cl = base().RealCovarianceScale

    class Both(cl):
        def fit(self, X, y=None):
            self.covariance_ = X.T @ X
            self.scale_ = (X * X).sum(axis=1)
            if point is not None:
                POINT[0]()
            return self
    return Both()


POINT = [lambda: None]


def features(name, T, N, p, jobs):
    def h(ctx):
        cl, kw, c = makers(ctx, name)
        X = ctx.data("x", (T, N, p), c)
        X0 = X.copy()
        with threads(ctx):
            fe = base().FeaturesEstimation(cl(**kw, **opts(name)),
                                           n_jobs=jobs)
            ctx.true(fe.fit(X) is fe, "fit returns the transformer")
            R = fe.transform(X)
        ctx.equal(X, X0, "trials are left untouched")
        ctx.equal(len(R), T, "one feature per trial")
        for i in range(T):
            ref = cl(**kw, **opts(name)).fit(X[i]).covariance_
            ctx.equal(R[i].export(), ref, "trial by trial feature")
    return h


def pairs(T, jobs, preempt):
    """two-component features; threads switch between fit and hand-over"""
    def h(ctx):
        X = ctx.data("x", (T, 2, 2))
        with threads(ctx, preempt) as point:
            POINT[0] = point
            R = base().FeaturesEstimation(scale_estimator(True),
                                          n_jobs=jobs).transform(X)
            POINT[0] = lambda: None
        ctx.equal(len(R), T, "one feature per trial")
        for i in range(T):
            C, s = R[i].export()
            ctx.equal(C, X[i].T @ X[i], "first component")
            ctx.equal(s, (X[i] * X[i]).sum(axis=1), "second component")
        V = R.vectorize()
        ctx.equal(V.shape, (T, 3 + 2), "vectorised")
        for i in range(T):
            C = X[i].T @ X[i]
            ctx.equal(V[i, 0], C[0, 0], "vectorised component")
            ctx.equal(V[i, 1], C[0, 1], "vectorised component")
            ctx.equal(V[i, 2], C[1, 1], "vectorised component")
            ctx.equal(V[i, 3:], (X[i] * X[i]).sum(axis=1),
                      "vectorised component")
    return h


def covariances_threads(jobs):
    """covariance batches under the same schedules"""
    def h(ctx):
        X = ctx.data("x", (2, 2, 2))
        with threads(ctx, jobs > 1) as point:
            POINT[0] = point
            R = base().CovariancesEstimation(scale_estimator(True),
                                             n_jobs=jobs).transform(X)
            POINT[0] = lambda: None
        for i in range(2):
            ctx.equal(R[i], X[i].T @ X[i], "trial by trial covariance")
    return h


def history(jobs):
    def h(ctx):
        X = ctx.data("x", (2, 2, 2))
        Y = ctx.data("y", (1, 2, 2))
        with threads(ctx):
            fe = base().FeaturesEstimation(scale_estimator(), n_jobs=jobs)
            A = fe.transform(X)
            B = fe.transform(Y)
        ctx.equal(len(A), 2, "first batch")
        ctx.equal(len(B), 1, "second batch")
        ctx.equal(B[0].export()[0], Y[0].T @ Y[0], "second batch")
        ctx.equal(A[1].export()[0], X[1].T @ X[1], "first batch afterwards")
    return h


def instances(tier):
    out = []
    for c in (False, True):
        t = tag(c)
        for nm, shapes in (("vector", ((3,),)), ("rect", ((2, 3), (3, 2))),
                           ("square", ((2, 2), (2,))),
                           ("tensor", ((2, 2, 2),)),
                           ("cube", ((2, 1, 2), (1,), (3, 3)))):
            for n in (1, 2):
                out.append(Instance("general-%s-%d-%s" % (nm, n, t),
                                    general(shapes, n, c),
                                    bounds="%d items" % n))
        for kind in ("sym", "skew"):
            for p in (1, 2, 3):
                for n in (1, 2):
                    if p == 1 and kind == "skew":
                        continue
                    out.append(Instance("%s%d-%d-%s" % (kind, p, n, t),
                                        structured(kind, p, n, c),
                                        bounds="%d items, p=%d" % (n, p)))
        out.append(Instance("decision-" + t, decision(c), maxpaths=200,
                            bounds="one 2x2 item, every entry"))
        out.append(Instance("mixed-" + t, mixed(c), bounds="2 items"))
        out.append(Instance("filled-" + t, onlyfilled(c), bounds="3 items"))
        for p, n in ((3, 2), (12, 3), (4, 30)):
            out.append(Instance("nearly-%dx%d-%s" % (p, n, t),
                                nearly(p, n, c), maxpaths=64,
                                bounds="%d items, p=%d, one entry arbitrary"
                                % (n, p)))
        for kind in ("sym", "skew"):
            for p, n in ((12, 2), (4, 30)):
                out.append(Instance(
                    "%s-wide-%dx%d-%s" % (kind, p, n, t),
                    wide(structured(kind, p, n, c)),
                    bounds="%d items, p=%d, two rows arbitrary" % (n, p)))
        for n in (40, 1030):
            out.append(Instance("general-wide-%d-%s" % (n, t), wide(general(
                ((2, 2), (5,)), n, c)),
                bounds="%d items, two rows arbitrary" % n))
        out.append(Instance("features-wide-%s" % t, wide(features(
            "empirical-" + t, 25, 3, 2, 3)),
            bounds="25 trials, 3 threads, two rows arbitrary"))
        for n, j in ((130, 2), (270, 1)):
            out.append(Instance("features-wide-%d-%s" % (n, t), wide(features(
                "empirical-" + t, n, 5, 1, j)),
                bounds="%d trials, %d threads, two rows arbitrary" % (n, j)))
        for k in ("empirical", "tyler", "student"):
            n = "%s-%s" % (k, t)
            for j in (1, 2):
                N = 3 if k == "empirical" else 2
                p = 1 if n == "student-complex" else 2
                out.append(Instance("features-%s-jobs%d" % (n, j),
                                    features(n, 2, N, p, j),
                                    bounds="2 trials, N=%d,p=%d" % (N, p)))
    for j in (1, 2):
        out.append(Instance("pairs-jobs%d" % j, pairs(3 if j == 1 else 2, j,
                                                      False),
                            bounds="2 or 3 trials of 2x2"))
        out.append(Instance("history-jobs%d" % j, history(j), bounds="2x2"))
        out.append(Instance("covariances-switch-jobs%d" % j,
                            covariances_threads(j), bounds="2 trials"))
    out.append(Instance("pairs-switch", pairs(2, 2, True),
                        bounds="2 threads, switch between fit and transform"))
    return out
