from .common import *
from .c08 import makers, ITER
from .c13 import captured

PROPERTY = "C14"


def logt_real(ctx, q, ld, p, df):
    h = fr(ctx, 1, 2)
    return gammaln(ctx, (df + p) * h) - gammaln(ctx, df * h) \
        - p * h * ln(ctx, df * pi(ctx)) - ld * h \
        - (df + p) * h * ln(ctx, 1 + q / df)


def logn(ctx, q, ld, p, c):
    if c:
        return -p * ln(ctx, pi(ctx)) - ld - q
    h = fr(ctx, 1, 2)
    return -p * h * ln(ctx, 2 * pi(ctx)) - h * ld - h * q


def logdens(ctx, name, Y, S, loc, df, c):
    """log densities of the rows of Y"""
    p = S.shape[0]
    iS = inv2(ctx, S, "c" if c else "f")
    ld = ln(ctx, det2(S).real)
    out = []
    for i in range(Y.shape[0]):
        q = quad(Y[i] - loc, iS)
        if name == "student":
            out.append((logt_complex if c else logt_real)(ctx, q, ld, p, df))
        else:
            out.append(logn(ctx, q, ld, p, c))
    return out


def score(name, N, p, T):
    """score of new data = log likelihood of the fitted model"""
    def h(ctx):
        cl, kw, c = makers(ctx, name)
        k = name.split("-")[0]
        X = ctx.data("x", (N, p), c)
        Y = ctx.data("y", (T, p), c)
        if k == "empirical":
            ctr = ctx.choose("centered", (True, False))
            m = cl(assume_centered=ctr).fit(X)
        else:
            m = cl(**kw, **ITER).fit(X, init=ctx.spd("s", p, c, "diag"))
        Y0 = Y.copy()
        S, loc = m.covariance_.copy(), m.location_.copy()
        s = m.score(Y)
        ctx.equal(Y, Y0, "data untouched")
        d = logdens(ctx, k, Y, S, loc, kw.get("df"), c)
        t = 0
        for x in d:
            t = t + x
        if k != "student":
            t = t * fr(ctx, 1, T)
        ctx.equal(s, t, "log likelihood" if k == "student" else
                  "mean log likelihood")
        ctx.equal(m.covariance_, S, "the model is unchanged")
        ctx.equal(m.score(Y), s, "scoring twice")
    return h


def aligned(name, T, mean=False, p=2):
    """samples along the axes of the start, so that the fit is a
    general positive definite matrix given by its eigenvectors"""
    def h(ctx):
        cl, kw, c = makers(ctx, name)
        k = name.split("-")[0]
        kd = "c" if c else "f"
        S0, V, r = ctx.spd("s", p, c, "diag" if k == "student" and (T > 1 or c)
                           else "spec", ret=True)
        t = [ctx.real("t%d" % i, pos=True) if p == 2 or i == 0 else
             ctx.frac(i + 1, 2) for i in range(p)]
        X = ctx.diag(t, kd) @ V.T
        Y = ctx.data("y", (T, p), c)
        loc = ctx.zeros((p,), kd)
        if k == "empirical":
            if mean:
                loc = ctx.data("mu", (p,), c)
                X = ctx.zeros((2 * p, p), kd)
                for i in range(p):
                    X[i] = loc + t[i] * V[:, i]
                    X[i + p] = loc - t[i] * V[:, i]
            m = cl(assume_centered=not mean).fit(X)
            e = [x * x * fr(ctx, 1, p) for x in t]
        else:
            m = cl(**kw, **ITER).fit(X, init=S0)
            d = kw["df"] * fr(ctx, 1, 2) if c and k == "student" else \
                kw.get("df")
            e = [r[i] * r[i] if k == "tyler" else
                 (d + p) * fr(ctx, 1, p) * t[i] * t[i] / (
                     d + t[i] * t[i] / (r[i] * r[i]))
                 for i in range(p)]
        S = V @ ctx.diag(e, kd) @ H(V)
        ctx.equal(m.covariance_, S, "the fitted matrix")
        ctx.equal(m.location_, loc, "the fitted location")
        s = m.score(Y)
        iS = V @ ctx.diag([1 / x for x in e], kd) @ H(V)
        ld = sum(ln(ctx, x) for x in e)
        tot = 0
        for i in range(T):
            q = quad(Y[i] - loc, iS)
            tot = tot + (((logt_complex if c else logt_real)(
                ctx, q, ld, p, kw["df"])) if k == "student" else
                logn(ctx, q, ld, p, c))
        if k != "student":
            tot = tot * fr(ctx, 1, T)
        ctx.equal(s, tot, "log likelihood")
    return h


def current_df(c):
    """the score uses the current degrees of freedom"""
    def h(ctx):
        cl, kw, _ = makers(ctx, "student-" + tag(c))
        _, kw2, _ = makers(ctx, "student-" + tag(c), "b")
        X = ctx.data("x", (2, 1), c)
        Y = ctx.data("y", (1, 1), c)
        m = cl(**kw, **ITER).fit(X, init=ctx.spd("s", 1, c))
        m.set_params(**kw2)
        d = logdens(ctx, "student", Y, m.covariance_, m.location_,
                    kw2["df"], c)
        ctx.equal(m.score(Y), d[0], "log likelihood")
    return h


def kronecker(a, b, N, T, centered, how):
    def h(ctx):
        p = a * b
        X = ctx.data("x", (N, p), True)
        Y = ctx.data("y", (T, p), True)
        df = ctx.real("df", pos=True, lo=0.5, hi=6)
        hw = dict(left=("entries", "diag"), right=("diag", "entries")).get(
            how, (how, how))
        A = entries(ctx, "A", a, True, hw[0])
        B = entries(ctx, "B", b, True, hw[1])
        m = captured(X, a, b, df, (A, B), assume_centered=centered)[0]
        loc = ctx.zeros((p,), "c")
        if not centered:
            loc = loc + X.sum(axis=0) * fr(ctx, 1, N)
        iS = kron(ctx, inv2(ctx, A), inv2(ctx, B))
        ld = b * ln(ctx, det2(A).real) + a * ln(ctx, det2(B).real)
        t = 0
        for i in range(T):
            t = t + logt_complex(ctx, quad(Y[i] - loc, iS), ld, p, df)
        ctx.equal(m.score(Y), t, "log likelihood")
    return h


def better(c):
    """among scales of one shape, the score ranks by likelihood: scoring is
    comparable between fitted models"""
    def h(ctx):
        cl = base().ComplexEmpiricalCovariance if c else \
            base().RealEmpiricalCovariance
        X = ctx.data("x", (1, 1), c)
        Y = ctx.data("y", (1, 1), c)
        x2 = (X[0, 0] * X[0, 0].conj()).real
        y2 = (Y[0, 0] * Y[0, 0].conj()).real
        ctx.assume(x2 > 0.1)
        ctx.assume(y2 > 0.1)
        a = cl(assume_centered=True).fit(X).score(Y)
        b = cl(assume_centered=True).fit(Y).score(Y)
        # b - a = (k)(r - 1 - log r) with r = y2/x2
        k = 1 if c else fr(ctx, 1, 2)
        r = y2 / x2
        ctx.equal(b - a, k * (r - 1 - ln(ctx, y2) + ln(ctx, x2)),
                  "difference of two scores")
    return h


def unknown_model(c):
    def h(ctx):
        cl, kw, _ = makers(ctx, "tyler-" + tag(c))
        X = ctx.data("x", (2, 1), c)
        m = cl(**ITER).fit(X, init=ctx.spd("s", 1, c))
        ctx.raises(NotImplementedError, lambda: m.score(X, model="other"),
                   "unknown models are refused")
    return h


def instances(tier):
    out = []
    for k in ("student", "tyler", "empirical"):
        for c in (False, True):
            n = "%s-%s" % (k, tag(c))
            for T in (1, 2):
                for mean in ((False, True) if k == "empirical" else
                             (False,)):
                    out.append(Instance(
                        "%s-aligned%s-T%d" % (n, "-mean" if mean else "", T),
                        aligned(n, T, mean),
                        bounds="N=2 (4 with a mean), p=2, %d scored" % T))
            for p, T in ((6, 2),):
                out.append(Instance(
                    "%s-aligned-p%dT%d" % (n, p, T),
                    wide(aligned(n, T, p=p),
                         "flat" if k == "student" else "rot"),
                    bounds="p=%d, %d scored, one eigenvalue and one length "
                    "arbitrary" % (p, T)))
            if k == "empirical":
                out.append(Instance(
                    "%s-mean-p6" % n, wide(aligned(n, 2, True, 6), "rot"),
                    bounds="p=6, 2 scored, one length arbitrary"))
            for N, p, T in ((130, 1, 1030), (1030, 1, 40), (130, 2, 130)):
                if p == 2 and c:
                    continue
                if k == "student":
                    N, p, T = {130: (2, 1, 130), 1030: (130, 1, 2)}[N]
                out.append(Instance(
                    "%s-wide-N%dp%dT%d" % (n, N, p, T),
                    wide(score(n, N, p, T), "flat", (0,)),
                    bounds="N=%d,p=%d, %d scored, first rows arbitrary"
                    % (N, p, T)))
            for N, p, T in ((2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2)):
                if p == 2 and (c or k == "student"):
                    continue
                if k == "empirical":
                    N = p + 1
                out.append(Instance("%s-N%dp%dT%d" % (n, N, p, T),
                                    score(n, N, p, T),
                                    bounds="N=%d,p=%d, %d scored" % (
                                        N, p, T)))
    for c in (False, True):
        out.append(Instance("df-" + tag(c), current_df(c), bounds="p=1"))
        out.append(Instance("model-" + tag(c), unknown_model(c),
                            bounds="p=1"))
        out.append(Instance("scale-" + tag(c), better(c), bounds="p=1"))
    for a, b, how in ((2, 1, "entries"), (1, 2, "entries"), (2, 2, "diag"),
                      (2, 2, "left"), (2, 2, "right")):
        for ctr in (True, False):
            out.append(Instance("kronecker-%dx%d-%s-%s" % (
                a, b, how, "centered" if ctr else "mean"),
                kronecker(a, b, 2, 2 if a * b == 2 else 1, ctr, how),
                bounds="N=2"))
    for ctr in (True, False):
        out.append(Instance(
            "kronecker-wide-%s" % ("centered" if ctr else "mean"),
            wide(kronecker(1, 2, 130, 130, ctr, "entries"), "flat", (0,)),
            bounds="N=130, 130 scored, first rows arbitrary"))
    return out
