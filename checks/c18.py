from .common import *
from .c14 import logn

PROPERTY = "C18"
dist = lambda: prob().complex_multivariate_normal


def cov_of(ctx, kind, p):
    """(argument, matrix) of each accepted form"""
    if kind == "default":
        return {}, ctx.eye(p)
    if kind == "scalar":
        s = ctx.real("s2", pos=True)
        return dict(cov=s), s * ctx.eye(p)
    if ctx.wide and p > 2:
        M, V, r = ctx.spd("S", p, kind != "real", "spec", ret=True)
        ctx.basis = V, [x * x for x in r]
        return dict(cov=M), M
    M = entries(ctx, "S", p, kind != "real", "entries" if p <= 2 else "diag")
    return dict(cov=M), M


def mean_of(ctx, kind, p):
    if kind == "none":
        return {}, ctx.zeros((p,), "f")
    m = ctx.data("mu", (p,), kind == "complex")
    return dict(mean=m), m


def setup(ctx, p, N, mean, cov, xc):
    kc, S = cov_of(ctx, cov, p)
    km, m = mean_of(ctx, mean, p)
    x = ctx.data("x", (p,) if N is None else (N, p), xc)
    return dict(kc, **km), x, m, S, mean == "complex" or cov == "complex"


def inverse(ctx, S, p):
    kd = ctx.kindof(S)
    if p <= 2:
        return inv2(ctx, S, kd), ln(ctx, det2(S).real)
    D = ctx.zeros((p, p), kd)
    ld = 0
    if ctx.wide:
        V, e = ctx.basis
        return V @ ctx.diag([1 / x for x in e], kd) @ H(V), sum(
            ln(ctx, x) for x in e)
    for i in range(p):
        D[i, i] = 1 / S[i, i]
        ld = ld + ln(ctx, S[i, i].real)
    return D, ld


def expected(ctx, x, m, S, p, N, c):
    """one log density per sample"""
    iS, ld = inverse(ctx, S, p)
    if not c and ctx.kindof(x) == "c":
        x = x.real
    rows = [x] if N is None else [x[i] for i in range(N)]
    return [logn(ctx, quad(r - m, iS), ld, p, c) for r in rows]


def call(ctx, via, name, kw, x):
    if via == "frozen":
        f = dist()(**kw)
        return getattr(f, name)(x)
    if via == "positional":
        m = kw.get("mean")
        return getattr(dist(), name)(x, m, kw["cov"]) if "cov" in kw else \
            getattr(dist(), name)(x, m)
    return getattr(dist(), name)(x, **kw)


def density(p, N, mean, cov, xc, via):
    def h(ctx):
        kw, x, m, S, c = setup(ctx, p, N, mean, cov, xc)
        x0 = x.copy()
        k0 = {k: v.copy() for k, v in kw.items() if hasattr(v, "copy")}
        got = call(ctx, via, "logpdf", kw, x)
        ctx.equal(x, x0, "input untouched")
        for k, v in k0.items():
            ctx.equal(kw[k], v, "parameters untouched")
        exp = expected(ctx, x, m, S, p, N, c)
        ctx.true(ctx.kindof(got) == "f", "real valued")
        if len(exp) == 1:
            ctx.equal(np.size(got), 1, "one value")
            ctx.equal(got if got.ndim == 0 else got[0], exp[0],
                      "log density")
        else:
            ctx.true(got.shape == (N,), "one value per sample")
            for i in range(N):
                ctx.equal(got[i], exp[i], "log density")
        d = call(ctx, via, "pdf", kw, x)
        ctx.true(ctx.kindof(d) == "f", "real valued")
        ctx.equal(d, np.exp(got),
                  "density = exp of the log density")
    return h


def entropy(p, mean, cov, via):
    def h(ctx):
        kc, S = cov_of(ctx, cov, p)
        km, m = mean_of(ctx, mean, p)
        kw = dict(kc, **km)
        c = mean == "complex" or cov == "complex"
        got = dist()(**kw).entropy() if via == "frozen" else \
            dist().entropy(**kw)
        _, ld = inverse(ctx, S, p)
        if c:
            e = p * (ln(ctx, pi(ctx)) + 1) + ld
        else:
            e = fr(ctx, p, 2) * (ln(ctx, 2 * pi(ctx)) + 1) + \
                fr(ctx, 1, 2) * ld
        ctx.equal(got, e, "differential entropy")
    return h


def distribution(mean, cov, via):
    """distribution functions: those of the stacked real vector"""
    def h(ctx):
        import scipy.stats
        p = 1
        kw, x, m, S, c = setup(ctx, p, None, mean, cov, True)
        mp = maps()
        R = mp.covariancetoreal(S + ctx.zeros((p, p), "c"))
        mr = mp.arraytoreal(m + ctx.zeros((p,), "c"))
        ref = scipy.stats.multivariate_normal
        xr = mp.arraytoreal(x)
        if ctx.sym:
            from symx import shim
            ref = shim.smv.multivariate_normal
        a = ref.cdf(xr, mr, R)
        ctx.equal(call(ctx, via, "cdf", kw, x), a, "distribution function",
                  tol=1e-3)
        if ctx.sym or a > 1e-3:
            l = call(ctx, via, "logcdf", kw, x) if via != "frozen" else \
                ln(ctx, dist()(**kw).cdf(x))
            ctx.equal(l, ln(ctx, a), "log distribution function", tol=1e-2)
    return h


def rotation(p):
    """circular: the density around the mean does not see the phase"""
    def h(ctx):
        S = entries(ctx, "S", p)
        x = ctx.cplx("x", (p,))
        u = ctx.unit("u")
        z = u + 1j * ctx.root(1 - u * u)
        f = dist()(cov=S)
        ctx.equal(f.logpdf(z * x), f.logpdf(x), "phase invariance")
        # and it is symmetric around any mean
        m = ctx.cplx("mu", (p,))
        g = dist()(mean=m, cov=S)
        ctx.equal(g.logpdf(m + x), f.logpdf(x), "translation")
    return h


def agree(p, N):
    """frozen, keyword and positional forms"""
    def h(ctx):
        kw, x, m, S, c = setup(ctx, p, N, "complex", "complex", True)
        a = call(ctx, "frozen", "logpdf", kw, x)
        ctx.equal(call(ctx, "keyword", "logpdf", kw, x), a, "same value")
        ctx.equal(call(ctx, "positional", "logpdf", kw, x), a, "same value")
        f = dist()(**kw)
        f.logpdf(x)
        ctx.equal(f.logpdf(x), a, "same value again")
        if N:
            for i in range(N):
                b = dist().logpdf(x[i], **kw)
                ctx.equal(b, a[i] if N > 1 else a, "sample by sample")
    return h


def singular(mean, cov, on):
    """a covariance without full rank, when allowed: the density on the
    support, zero elsewhere; refused otherwise"""
    def h(ctx):
        c = mean == "complex" or cov == "complex"
        km, m = mean_of(ctx, mean, 2)
        s = ctx.real("s", pos=True)
        S = ctx.zeros((2, 2), "c" if cov == "complex" else "f")
        S[0, 0] = s
        X = ctx.zeros((2, 2), "c" if c else "f")
        d = ctx.data("d", (2,), c)
        for i in range(2):
            X[i, 0] = m[0] + d[i]
            X[i, 1] = m[1] + 0 * d[i]
        e = [logn(ctx, (x * x.conj()).real / s, ln(ctx, s), 1, c) for x in d]
        if not on:
            t = ctx.real("t", pos=True, lo=.5)
            ctx.assume(t > fr(ctx, 1, 100))
            X[1, 1] = X[1, 1] + t
        for allow in (True, False):
            kw = dict(km, cov=S)
            if allow:
                kw["allow_singular"] = True
            calls = [lambda: dist().logpdf(X, **kw),
                     lambda: dist().pdf(X, **kw),
                     lambda: dist()(**kw).logpdf(X),
                     lambda: dist()(**kw).pdf(X)]
            for i, f in enumerate(calls):
                if not allow:
                    ctx.raises(np.linalg.LinAlgError, f, "refused")
                    continue
                r = f()
                ctx.equal(r.shape, (2,), "one value per sample")
                for j in range(2 if on else 1):
                    g = r[j] if i % 2 == 0 else ln(ctx, r[j])
                    ctx.equal(g, e[j], "density on the support")
                if not on:
                    ctx.true(bool(r[1] == (0 if i % 2 else -np.inf)),
                             "no density off the support")
    return h


def instances(tier):
    out = []
    vias = ("frozen", "keyword", "positional")
    for p in (1, 2, 3):
        for N in (None, 1, 2):
            for mean in ("none", "real", "complex"):
                for cov in ("scalar", "real", "complex", "default"):
                    c = mean == "complex" or cov == "complex"
                    if cov in ("scalar", "default") and mean == "none" and \
                            p > 1:
                        continue
                    for xc in (True, False):
                        if p == 3 and (N == 1 or mean != "complex" or not xc):
                            continue
                        if N == 1 and (not xc or cov == "default"):
                            continue
                        for via in vias:
                            if via == "positional" and N != 2:
                                continue
                            if p == 3 and via != "frozen":
                                continue
                            n = "%s-m%s-S%s-x%s-p%d-N%s" % (
                                via, mean, cov, tag(xc), p, N)
                            out.append(Instance(
                                n, density(p, N, mean, cov, xc, via),
                                bounds="p=%d, N=%s" % (p, N)))
    for p in (1, 2):
        for mean in ("none", "real", "complex"):
            for cov in ("scalar", "real", "complex"):
                for via in ("frozen", "keyword"):
                    if cov == "scalar" and mean == "none" and p > 1:
                        continue
                    out.append(Instance("entropy-%s-m%s-S%s-p%d" % (
                        via, mean, cov, p), entropy(p, mean, cov, via),
                        bounds="p=%d" % p))
        out.append(Instance("rotation-p%d" % p, rotation(p),
                            bounds="p=%d" % p))
        for N in (None, 2, 3):
            out.append(Instance("agree-p%d-N%s" % (p, N), agree(p, N),
                                bounds="p=%d, N=%s" % (p, N)))
    for mean, cov in (("complex", "complex"), ("none", "complex"),
                      ("real", "real")):
        for p, N in ((1, 1030), (2, 130), (6, 3), (4, 12), (12, None),
                     (12, 130)):
            for via in ("frozen", "keyword"):
                if p == 6 and via == "keyword":
                    continue
                out.append(Instance(
                    "wide-%s-m%s-S%s-p%d-N%s" % (via, mean, cov, p, N),
                    wide(density(p, N, mean, cov, cov != "real", via), "rot" if p < 12 else "flat"),
                    bounds="p=%d, N=%s, first and last sample and one "
                    "eigenvalue arbitrary" % (p, N)))
    for mean in ("none", "complex"):
        for via in vias:
            out.append(Instance("cdf-%s-%s" % (via, mean),
                                distribution(mean, "complex", via),
                                bounds="p=1"))
    for mean in ("none", "real", "complex"):
        for cov in ("real", "complex"):
            for on in (True, False):
                out.append(Instance("singular-%s-%s-%s" % (
                    mean, cov, "on" if on else "off"), singular(
                        mean, cov, on), bounds="p=2, N=2, rank 1"))
    return out
