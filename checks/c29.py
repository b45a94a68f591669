from .common import *
from .geometry import *
from .c25 import leafs
from .c23 import _tvec

PROPERTY = "C29"


def wrap(sp, l):
    return _tvec(l) if hasattr(sp, "leaves") else l[0]


def move(sp, a, b, t):
    """a + t b, componentwise"""
    r = [p + t * q for p, q in zip(leafs(a), leafs(b))]
    return r if hasattr(sp, "leaves") else r[0]


def connection(ctx, sp, x, u, v):
    """-(u x^-1 v + v x^-1 u)/2: the Christoffel term of the affine
    invariant metric; -u v / x for positive vectors"""
    out = []
    for l, p, a, b in zip(parts(sp), getattr(x, "parts", None) or [x],
                          getattr(u, "parts", None) or [u],
                          getattr(v, "parts", None) or [v]):
        if l.kind == "spv":
            out.append(-p.arr * a.S * b.S)
        else:
            out.append(l.lift(ctx, p, [
                fr(ctx, -1, 2) * (s @ t + t @ s)
                for s, t in zip(a.S, b.S)]).arr)
    return out


def hessian(sp, how):
    def h(ctx):
        m = sp.make(ctx)

        def build():
            x = sp.pt(ctx, "x", how)
            return (x, sp.vec(ctx, x, "u", "full"), sp.ambient(ctx, "g"),
                    sp.ambient(ctx, "h"))
        x, u, g, k = build()
        keep = [a.copy() for z in (x.arr, g, k, u.arr) for a in leafs(z)]
        r = m.ehess2rhess(x.arr, g, k, u.arr)
        for a, b in zip([a for z in (x.arr, g, k, u.arr) for a in leafs(z)],
                        keep):
            ctx.equal(a, b, "inputs untouched")
        sp.check_tangent(ctx, x, r, "Hessian")
        ctx.real("step", lo=-.5, hi=.5)
        rg = sp.lower(ctx, x, m.egrad2rgrad(x.arr, g))
        C = connection(ctx, sp, x, u, rg)
        for i in range(len(parts(sp))):
            # gradient field along x + t u with Euclidean gradient g + t h
            def f():
                x, u, g, k = build()
                t = ctx.real("step", lo=-.5, hi=.5)
                gt = move(sp, g, k, t)
                return leafs(m.egrad2rgrad(
                    move(sp, x.arr, u.arr, t),
                    _tvec(gt) if hasattr(sp, "leaves") else gt))[i]
            ctx.equal(leafs(r)[i],
                      ctx.partial(f, "step", at=0) + C[i],
                      "covariant derivative of the gradient",
                      tol=None if ctx.sym else 1e-6)
    return h


def selfadjoint(sp, how):
    """symmetric in the metric where the Euclidean Hessian is (here a
    quadratic form c Re<., .> plus a rank one term)"""
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        u, v = sp.vec(ctx, x, "u"), sp.vec(ctx, x, "v")
        g, b = sp.ambient(ctx, "g"), sp.ambient(ctx, "b")
        c = ctx.real("c")

        def ehess(w):
            q = 0
            for z, y in zip(leafs(b), leafs(w.arr)):
                q = q + (z.conj() * y).real.sum()
            return wrap(sp, [c * y + q * z for z, y in
                             zip(leafs(b), leafs(w.arr))])
        p = m.inner(x.arr, m.ehess2rhess(x.arr, g, ehess(u), u.arr), v.arr)
        q = m.inner(x.arr, m.ehess2rhess(x.arr, g, ehess(v), v.arr), u.arr)
        ctx.equal(p, q, "self-adjoint")
    return h


def linear(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        g = sp.ambient(ctx, "g")
        u, v = sp.vec(ctx, x, "u"), sp.vec(ctx, x, "v")
        a, b = sp.ambient(ctx, "a"), sp.ambient(ctx, "b")
        t = ctx.real("t")
        w = wrap(sp, [p + t * q for p, q in zip(leafs(u.arr), leafs(v.arr))])
        c = wrap(sp, [p + t * q for p, q in zip(leafs(a), leafs(b))])
        r = m.ehess2rhess(x.arr, g, c, w)
        p, q = m.ehess2rhess(x.arr, g, a, u.arr), \
            m.ehess2rhess(x.arr, g, b, v.arr)
        for i, j, k in zip(leafs(r), leafs(p), leafs(q)):
            ctx.equal(i, j + t * k, "linear in the direction")
    return h


def instances(tier):
    out = space_instances(tier, [("hessian", hessian), ("linear", linear)],
                          special=False, kron=False)
    for sp, _ in spaces(tier, special=False, kron=False):
        if isinstance(sp, Leaf) and sp.kind == "spv" and sp.k > 1:
            continue
        n = max([l.n for l in parts(sp) if l.kind != "spv"], default=1)
        hows = ["diag"]
        if n == 2 and isinstance(sp, Leaf) and sp.k == 1:
            hows.append("chol")
            if tier != "quick":
                hows.append("full")
        for how in hows:
            out.append(Instance("symmetric-%s-%s" % (sp.name, how),
                                selfadjoint(sp, how),
                                bounds="%s, %s points" % (sp.name, how)))
    for sp in large_spaces(special=False, kron=False):
        if isinstance(sp, Leaf) and sp.kind == "spv" and sp.k > 1:
            continue
        out.append(Instance("symmetric-wide-" + sp.name,
                            wide(selfadjoint(sp, "full")),
                            bounds=sp.name + ", one entry of each frame and "
                            "vector and the ends of arrays arbitrary"))
    return out
