from .common import *

PROPERTY = "C15"


def shape_of(N, p):
    return (p,) if N is None else (N, p)


def real_form(ctx, z):
    """stacked real form, entry by entry"""
    p = z.shape[-1]
    out = ctx.zeros(z.shape[:-1] + (2 * p,), "f")
    for i in np.ndindex(*z.shape):
        out[i] = z[i].real
        out[i[:-1] + (i[-1] + p,)] = z[i].imag
    return out


def there_and_back(N, p):
    def h(ctx):
        z = ctx.cplx("z", shape_of(N, p))
        z0 = z.copy()
        r = maps().arraytoreal(z)
        ctx.equal(r, real_form(ctx, z0), "real form")
        ctx.true(ctx.kindof(r) == "f", "real form is real")
        ctx.equal(z, z0, "input untouched")
        s = (r * r).sum() - (z0 * z0.conj()).real.sum()
        ctx.equal(s, 0 * s, "norm preserved")
        r0 = r.copy()
        b = maps().arraytocomplex(r)
        ctx.equal(b, z0, "back to the complex array")
        ctx.true(ctx.kindof(b) == "c", "kind")
        ctx.equal(r, r0, "input untouched")
        # fresh results: writing to them does not reach the input
        b[...] = 0
        ctx.equal(r, r0, "result is a new array")
        r[...] = 0
        ctx.equal(z, z0, "result is a new array")
    return h


def back_and_there(N, p):
    def h(ctx):
        x = ctx.reals("x", shape_of(N, 2 * p))
        x0 = x.copy()
        z = maps().arraytocomplex(x)
        ctx.true(z.shape == shape_of(N, p), "shape")
        for i in np.ndindex(*z.shape):
            ctx.equal(z[i].real, x0[i], "real part")
            ctx.equal(z[i].imag, x0[i[:-1] + (i[-1] + p,)], "imaginary part")
        ctx.equal(maps().arraytoreal(z), x0, "back to the real array")
        ctx.equal(x, x0, "input untouched")
    return h


def integers(N, p):
    def h(ctx):
        x = ctx.ints("x", shape_of(N, 2 * p))
        z = maps().arraytocomplex(x)
        for i in np.ndindex(*z.shape):
            ctx.equal(z[i].real, x[i], "real part")
            ctx.equal(z[i].imag, x[i[:-1] + (i[-1] + p,)], "imaginary part")
        ctx.equal(maps().arraytoreal(x), x, "real arrays are kept")
    return h


def kept(N, p):
    """arrays already in the target form"""
    def h(ctx):
        x = ctx.reals("x", shape_of(N, p))
        z = ctx.cplx("z", shape_of(N, p))
        ctx.equal(maps().arraytoreal(x), x, "real arrays are kept")
        ctx.equal(maps().arraytocomplex(z), z, "complex arrays are kept")
    return h


def refused(N, p):
    def h(ctx):
        x = ctx.reals("x", shape_of(N, p))
        ctx.raises(AttributeError, lambda: maps().arraytocomplex(x),
                   "odd number of columns is refused")
    return h


def deep(shape):
    def h(ctx):
        x = ctx.reals("x", shape)
        z = ctx.cplx("z", shape)
        ctx.raises(AttributeError, lambda: maps().arraytocomplex(x),
                   "more than two axes are refused")
        ctx.raises(AttributeError, lambda: maps().arraytoreal(z),
                   "more than two axes are refused")
    return h


def linear(N, p):
    """real-linear, and products with i rotate the two halves"""
    def h(ctx):
        a, b = (ctx.cplx(n, shape_of(N, p)) for n in "ab")
        t = ctx.real("t")
        f = maps().arraytoreal
        ctx.equal(f(a + t * b), f(a) + t * f(b), "real linear")
        ctx.equal(f(1j * a)[..., :p], -f(a)[..., p:], "times i")
        ctx.equal(f(1j * a)[..., p:], f(a)[..., :p], "times i")
    return h


def instances(tier):
    out = []
    Ns = (None, 1, 2, 3) if tier == "quick" else (None, 1, 2, 3, 5, 8)
    ps = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 6)
    for N in Ns:
        for p in ps:
            n = "%s-p%d" % ("vector" if N is None else "N%d" % N, p)
            b = "N=%s, p=%d" % (N, p)
            for nm, f in (("there", there_and_back), ("back", back_and_there),
                          ("kept", kept), ("linear", linear),
                          ("integers", integers)):
                out.append(Instance("%s-%s" % (nm, n), f(N, p), bounds=b))
            if p % 2:
                out.append(Instance("odd-%s" % n, refused(N, p), bounds=b))
    for s in ((1, 1, 2), (2, 2, 2), (1, 2, 1, 2)):
        out.append(Instance("deep-" + "x".join(map(str, s)), deep(s),
                            bounds=str(s)))
    for N, p in ((12, 12), (1030, 2), (130, 3), (3, 130), (None, 130)):
        n = "%s-p%d" % ("vector" if N is None else "N%d" % N, p)
        for nm, f in (("there", there_and_back), ("back", back_and_there),
                      ("kept", kept), ("linear", linear)):
            if N == 1030 and nm in ("kept", "linear"):
                continue
            if N is None:
                b, g = "p=%d" % p, f(N, p)
            else:
                b = "N=%d, p=%d, first and last row arbitrary" % (N, p)
                g = wide(f(N, p))
            out.append(Instance("wide-%s-%s" % (nm, n), g, bounds=b))
    for N, p in ((130, 13), (12, 131)):
        out.append(Instance("wide-odd-%dx%d" % (N, p), wide(refused(N, p)),
                            bounds="N=%d, p=%d" % (N, p)))
    return out
