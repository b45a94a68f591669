from .common import *

PROPERTY = "C05"
AGAIN = 15


def algos():
    e = est()
    out = {}
    for c in (False, True):
        pre = "complex_" if c else ""
        t = tag(c)
        out["tyler-" + t] = (getattr(
            e, pre + "tyler_shape_matrix_fixedpoint"), c, ())
        out["student-" + t] = (getattr(
            e, pre + "student_t_mle_fixed_point"), c, ("df",))
        out["huber-" + t] = (getattr(
            e, pre + "huber_m_estimator_fixed_point"), c, ("q",))
    return out


def extra(ctx, names):
    out = []
    for n in names:
        if n == "df":
            out.append(ctx.real("df", pos=True, lo=0.5, hi=6))
        else:
            q = quantile(ctx)
            out.append(q)
    return out


def nonzero(ctx, X):
    """no sample is zero (zero samples carry no information on the shape)"""
    n = X.conj() * X
    for i in range(X.shape[0]):
        ctx.assume((n[i].sum()).real > 0)


def stop(name, N, kmax):
    """every tolerance: which step it stops at, what it reports"""
    def h(ctx):
        f, c, names = algos()[name]
        X = ctx.data("x", (N, 1), c)
        nonzero(ctx, X)
        S0 = ctx.spd("s", 1, c)
        a = extra(ctx, names)
        tol = ctx.real("tol", lo=0, hi=1)
        # forced runs; what they report is decided by the report instances
        S = [S0]
        d = []
        for k in range(kmax):
            n, e, _ = f(X, *a, init=S0, tol=NEVER, iter_max=k + 1)
            S.append(n)
            d.append(e)
        out, err, it = f(X, *a, init=S0, tol=tol, iter_max=kmax)
        it = int(it)
        ctx.true(1 <= it <= kmax, "at least one and at most iter_max steps")
        for k in range(it - 1):
            ctx.true(d[k] > tol, "never stops later than the criterion")
        if it < kmax:
            ctx.true(d[it - 1] <= tol, "early stop only below the tolerance")
        ctx.equal(err, d[it - 1], "reported error: last relative change")
        ctx.equal(out, S[it], "returned iterate is the counted one")
    return h


def report(name, N, p, k):
    """error and count reported after k forced steps (matrices)"""
    def h(ctx):
        f, c, names = algos()[name]
        X = ctx.data("x", (N, p), c)
        S0 = ctx.spd("s", p, c)
        a = extra(ctx, names)
        S = [S0]
        for _ in range(k):
            n, _, _ = f(X, *a, init=S[-1], tol=NEVER, iter_max=1)
            S.append(n)
        out, err, it = f(X, *a, init=S0, tol=NEVER, iter_max=k)
        ctx.equal(it, k, "iteration count")
        ctx.equal(out, S[-1], "iterate")
        ctx.equal(err, lnorm(ctx, S[-1] - S[-2]) / lnorm(ctx, S[-2]),
                  "relative Frobenius change of the last step")
    return h


def axes(name, N, k):
    """samples along the two axes: the coordinates move at different speeds,
    so that the relative change grows as well as it shrinks"""
    def h(ctx):
        f, c, names = algos()[name]
        X = ctx.zeros((N, 2), "c" if c else "f")
        z = ctx.data("z", (2,), c)
        for i in range(2):
            ctx.assume((z[i] * z[i].conj()).real > 0)
            X[i, i] = z[i]
        for i in range(2, N):
            X[i, 1] = z[1] * ctx.frac(i, 2)
        S0 = ctx.diag([ctx.real("s%d" % i, pos=True, lo=.01, hi=9)
                       for i in range(2)], "c" if c else "f")
        a = [ctx.real("df", pos=True, lo=0.5, hi=6) if n == "df" else
             ctx.frac(19, 20) for n in names]
        S = [S0]
        for _ in range(k):
            n, _, _ = f(X, *a, init=S[-1], tol=NEVER, iter_max=1)
            S.append(n)
        out, err, it = f(X, *a, init=S0, tol=NEVER, iter_max=k)
        ctx.equal(it, k, "iteration count")
        ctx.equal(out, S[-1], "iterate")
        ctx.equal(err, lnorm(ctx, S[-1] - S[-2]) / lnorm(ctx, S[-2]),
                  "relative Frobenius change of the last step")
    return h


def late(name, K, last=3):
    """every tolerance a run on fixed samples reaches after K - last steps
    or not at all"""
    def h(ctx):
        f, c, names = algos()[name]
        p = 2 if names == () else 1
        X = ctx.zeros((3 if p == 2 else 2, p), "c" if c else "f")
        if p == 2:
            # scaled axes: the relative change is 1/3 at every step
            X[0, 0], X[1, 0], X[2, 1] = (ctx.frac(v) for v in (2, -1, 3))
        else:
            X[0, 0], X[1, 0] = ctx.frac(2), -ctx.frac(2)
        S0 = ctx.eye(p, "c" if c else "f")
        a = (ctx.frac(1, 16),) if names else ()
        tol = ctx.real("tol", lo=0, hi=1)
        S, d = [S0], []
        for k in range(K):
            n, e, _ = f(X, *a, init=S[-1], tol=NEVER, iter_max=1)
            S.append(n)
            d.append(e)
        if p == 1:
            ctx.assume(tol < d[K - last] * ctx.frac(99, 100))
        else:
            ctx.assume((tol < ctx.frac(3, 10)))
        out, err, it = f(X, *a, init=S0, tol=tol, iter_max=K)
        it = int(it)
        ctx.true(K - last < it <= K, "late or no stop")
        ctx.true(d[it - 2] > tol, "never stops later than the criterion")
        if it < K:
            ctx.true(d[it - 1] <= tol, "early stop only below the tolerance")
        ctx.equal(err, d[it - 1], "reported error: last relative change")
        ctx.equal(out, S[it], "returned iterate is the counted one")
    return h


def lnorm(ctx, M):
    """Frobenius norm"""
    if not ctx.sym:
        return np.linalg.norm(M)
    from symx import arr
    return arr.l_norm(M)


def zero(name):
    def h(ctx):
        f, c, names = algos()[name]
        X = ctx.data("x", (2, 2), c)
        S0 = ctx.spd("s", 2, c)
        a = extra(ctx, names)
        tol = ctx.real("tol", lo=0, hi=1)
        out, err, it = f(X, *a, init=S0, tol=tol, iter_max=0)
        ctx.equal(out, S0, "no step: the initial point")
        ctx.equal(it, 0, "no step counted")
    return h


def classes(name, N):
    """the estimator object reports what the iteration reports"""
    def h(ctx):
        e = est()
        f, c, names = algos()[name]
        pre = "Complex" if c else ""
        cl = {"tyler": pre + "TylerShapeMatrix",
              "student": pre + "CenteredStudentMLE",
              "huber": pre + "HuberMEstimator"}[name.split("-")[0]]
        cl = getattr(e, cl)
        X = ctx.data("x", (N, 1), c)
        nonzero(ctx, X)
        S0 = ctx.spd("s", 1, c)
        a = extra(ctx, names)
        tol = ctx.real("tol", lo=0, hi=1)
        m = cl(*a, tol=tol, iter_max=2).fit(X, init=S0)
        out, err, it = f(X, *a, init=S0, tol=tol, iter_max=2)
        ctx.equal(m.covariance_, out, "covariance_")
        ctx.equal(m.err_, err, "err_")
        ctx.equal(m.iteration_, it, "iteration_")
    return h


def mm_stop():
    def h(ctx):
        f = struct().estimation_cov_kronecker_MM
        X = ctx.data("x", (2, 1), True)
        tol = ctx.real("tol", lo=0, hi=1)
        S = []
        for k in (1, 2):
            S.append(f(X, 1, 1, tol=NEVER, iter_max=k))
        A, B, err, it = f(X, 1, 1, tol=tol, iter_max=2)
        it = int(it)
        ctx.true(1 <= it <= 2, "step bounds")
        if it == 2:
            ctx.true(S[0][2] > tol, "never stops later than the criterion")
        else:
            ctx.true(S[0][2] <= tol, "early stop only below the tolerance")
        ctx.equal(A, S[it - 1][0], "A")
        ctx.equal(B, S[it - 1][1], "B")
        ctx.equal(err, S[it - 1][2], "reported error")
        ctx.equal(S[0][3], 1, "count")
        ctx.equal(S[1][3], 2, "count")
        # scalar model: A stays 1 up to rounding, B moves from 1
        A1, B1, e1, _ = S[0]
        da = abs(A1[0, 0] - 1)
        db = abs(B1[0, 0] - 1)
        ctx.true(da <= e1, "error covers the change of A")
        ctx.true(db <= e1, "error covers the change of B")
        A0, B0, e0, i0 = f(X, 1, 1, tol=tol, iter_max=0)
        ctx.equal(A0, ctx.eye(1, "c"), "no step: identity")
        ctx.equal(i0, 0, "no step counted")
    return h


def mm_report(a, b, c, k):
    """the reported error is the larger relative change of the two factors"""
    def h(ctx):
        f = struct().estimation_cov_kronecker_MM
        X = ctx.data("x", (2, a * b), c)
        nonzero(ctx, X)
        if k == 1:
            A0, B0 = ctx.eye(a, "c"), ctx.eye(b, "c")
        else:
            A0, B0, _, _ = f(X, a, b, tol=NEVER, iter_max=k - 1)
        A, B, err, it = f(X, a, b, tol=NEVER, iter_max=k)
        ctx.equal(it, k, "iteration count")
        da = lnorm(ctx, A - A0) / lnorm(ctx, A0)
        db = lnorm(ctx, B - B0) / lnorm(ctx, B0)
        if bool(da >= db):
            ctx.equal(err, da, "error: relative change of A")
        else:
            ctx.equal(err, db, "error: relative change of B")
    return h


def instances(tier):
    out = []
    for n in ["%s-%s" % (a, t) for a in ("tyler", "student", "huber")
              for t in ("real", "complex")]:
        small = n.startswith("huber")
        out += [
            Instance(n + "-stop", stop(n, 1 if small else 2, 2),
                     bounds="p=1, iter_max=2, every tolerance",
                     opts=dict(query_timeout=4), budget=60),
            Instance(n + "-report-p2", report(n, 2, 2, 1),
                     bounds="p=2, 1 step"),
            Instance(n + "-report2-p2", report(n, 2, 2, 2),
                     bounds="p=2, 2 steps", core=False, budget=60,
                     tier="thorough" if small else "quick"),
            Instance(n + "-zero", zero(n), bounds="N=2,p=2"),
            Instance(n + "-class", classes(n, 1 if small else 2),
                     bounds="p=1, iter_max=2",
                     budget=60),
        ]
        out.append(Instance(n + "-axes", axes(n, 2 if small else 4, 3),
                            core=False, budget=60,
                            bounds="p=2, samples along the axes, 3 steps, "
                            "every starting point"))
        if tier == "thorough" and not small:
            out.append(Instance(n + "-stop3", stop(n, 1, 3), core=False,
                                budget=900,
                                bounds="p=1, iter_max=3, every tolerance"))
        c = n.endswith("complex")
        if not small:
            for K in (20, 60) + ((130,) if n.startswith("s") else ()):
                out.append(Instance("%s-late-%d" % (n, K), late(n, K),
                                    bounds="fixed samples, iter_max=%d, "
                                    "every tolerance stopping in the last "
                                    "steps" % K))
        widened(out, n + "-report", lambda N, p: report(n, N, p, 1),
                ((130, 2), (12, 6)), free=(-1,), core=False)
    out.append(Instance("mm-stop", mm_stop(), bounds="a=b=1, iter_max=2"))
    for a, b in ((2, 1), (1, 2)):
        for c in (False, True):
            out.append(Instance("mm-report-%s-%dx%d" % (tag(c), a, b),
                                mm_report(a, b, c, 1), bounds="N=2, 1 step"))
    return [i for i in out if tier == "thorough" or i.tier == "quick"]
