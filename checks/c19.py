from .common import *
from .c14 import logt_real
from .c18 import cov_of, mean_of, inverse

PROPERTY = "C19"
dist = lambda: prob().complex_multivariate_t


def params(ctx, p, loc, shape, dfk):
    kc, S = cov_of(ctx, shape, p)
    km, m = mean_of(ctx, loc, p)
    kw = {}
    if kc:
        kw["shape"] = kc["cov"]
    if km:
        kw["loc"] = km["mean"]
    df = 1
    if dfk == "symbol":
        df = kw["df"] = ctx.real("df", pos=True, lo=.5, hi=6)
    return kw, m, S, df, loc == "complex" or shape == "complex"


def call(ctx, via, name, kw, x):
    if via == "frozen":
        return getattr(dist()(**kw), name)(x)
    if via == "positional":
        return getattr(dist(), name)(x, kw.get("loc"), kw.get("shape", 1),
                                     kw.get("df", 1))
    return getattr(dist(), name)(x, **kw)


def density(p, N, loc, shape, dfk, xc, via):
    def h(ctx):
        kw, m, S, df, c = params(ctx, p, loc, shape, dfk)
        x = ctx.data("x", (p,) if N is None else (N, p), xc)
        if dfk != "symbol":
            for nm in ("logpdf", "pdf"):
                ctx.equal(call(ctx, via, nm, kw, x),
                          call(ctx, via, nm, dict(kw, df=1), x),
                          "one degree of freedom by default")
            return
        x0 = x.copy()
        k0 = {k: v.copy() for k, v in kw.items() if hasattr(v, "shape")
              and np.ndim(v)}
        got = call(ctx, via, "logpdf", kw, x)
        ctx.equal(x, x0, "input untouched")
        for k, v in k0.items():
            ctx.equal(kw[k], v, "parameters untouched")
        iS, ld = inverse(ctx, S, p)
        y = x.real if not c and ctx.kindof(x) == "c" else x
        rows = [y] if N is None else [y[i] for i in range(N)]
        exp = [(logt_complex if c else logt_real)(
            ctx, quad(r - m, iS), ld, p, df) for r in rows]
        ctx.true(ctx.kindof(got) == "f", "real valued")
        if len(exp) == 1:
            ctx.equal(np.size(got), 1, "one value")
            ctx.equal(got if got.ndim == 0 else got[0], exp[0],
                      "log density")
        else:
            ctx.true(got.shape == (N,), "one value per sample")
            for i in range(N):
                ctx.equal(got[i], exp[i], "log density")
        d = call(ctx, via, "pdf", kw, x)
        ctx.true(ctx.kindof(d) == "f", "real valued")
        ctx.equal(d, np.exp(got), "density = exp of the log density")
    return h


def circular(p):
    def h(ctx):
        S = entries(ctx, "S", p)
        x = ctx.cplx("x", (p,))
        u = ctx.unit("u")
        df = ctx.real("df", pos=True, lo=.5, hi=6)
        z = u + 1j * ctx.root(1 - u * u)
        f = dist()(shape=S, df=df)
        ctx.equal(f.logpdf(z * x), f.logpdf(x), "phase invariance")
        m = ctx.cplx("mu", (p,))
        g = dist()(loc=m, shape=S, df=df)
        ctx.equal(g.logpdf(m + x), f.logpdf(x), "translation")
    return h


def agree(p, N):
    def h(ctx):
        kw, m, S, df, c = params(ctx, p, "complex", "complex", "symbol")
        x = ctx.cplx("x", (p,) if N is None else (N, p))
        a = call(ctx, "frozen", "logpdf", kw, x)
        ctx.equal(call(ctx, "keyword", "logpdf", kw, x), a, "same value")
        ctx.equal(call(ctx, "positional", "logpdf", kw, x), a, "same value")
        f = dist()(**kw)
        f.logpdf(x)
        ctx.equal(f.logpdf(x), a, "same value again")
        if N:
            for i in range(N):
                b = dist().logpdf(x[i], **kw)
                ctx.equal(b, a[i] if N > 1 else a, "sample by sample")
    return h


def instances(tier):
    out = []
    for p in (1, 2, 3):
        for N in (None, 1, 2):
            for loc in ("none", "real", "complex"):
                for shape in ("scalar", "real", "complex", "default"):
                    for dfk in ("symbol", "default"):
                        for xc in (True, False):
                            if shape in ("scalar", "default") and \
                                    loc == "none" and p > 1:
                                continue
                            if p == 3 and (N == 1 or loc != "complex" or
                                           not xc):
                                continue
                            if N == 1 and (not xc or shape == "default"):
                                continue
                            if dfk == "default" and (N is not None or p > 2):
                                continue
                            for via in ("frozen", "keyword", "positional"):
                                if via == "positional" and N != 2:
                                    continue
                                if p == 3 and via != "frozen":
                                    continue
                                n = "%s-m%s-S%s-df%s-x%s-p%d-N%s" % (
                                    via, loc, shape, dfk, tag(xc), p, N)
                                out.append(Instance(n, density(
                                    p, N, loc, shape, dfk, xc, via),
                                    bounds="p=%d, N=%s" % (p, N)))
    for p in (1, 2):
        out.append(Instance("circular-p%d" % p, circular(p),
                            bounds="p=%d" % p))
        for N in (None, 2, 3):
            out.append(Instance("agree-p%d-N%s" % (p, N), agree(p, N),
                                bounds="p=%d, N=%s" % (p, N)))
    for loc, shape in (("complex", "complex"), ("none", "complex"),
                       ("real", "real")):
        for p, N in ((1, 1030), (2, 130), (6, 3), (4, 12), (12, None),
                     (12, 130)):
            for via in ("frozen", "keyword"):
                if p == 6 and via == "keyword":
                    continue
                out.append(Instance(
                    "wide-%s-m%s-S%s-p%d-N%s" % (via, loc, shape, p, N),
                    wide(density(p, N, loc, shape, "symbol",
                                 shape != "real", via), "rot" if p < 12 else "flat"),
                    bounds="p=%d, N=%s, first and last sample and one "
                    "eigenvalue arbitrary" % (p, N)))
    return out
