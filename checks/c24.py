from .common import *
from .geometry import *

PROPERTY = "C24"


def gradient(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        v = sp.vec(ctx, x, "v")
        g = sp.ambient(ctx, "g")
        g0 = [a.copy() for a in (g if isinstance(g, list) else [g])]
        r = m.egrad2rgrad(x.arr, g)
        sp.check_tangent(ctx, x, r, "gradient")
        d = sp.euclid(ctx, g, v)
        ctx.equal(sp.metric(ctx, sp.lower(ctx, x, r), v), d,
                  "represents the derivative in the metric")
        ctx.equal(m.inner(x.arr, r, v.arr), d,
                  "represents the derivative in the manifold's own metric")
        for a, b in zip(g if isinstance(g, list) else [g], g0):
            ctx.equal(a, b, "input untouched")
    return h


def additive(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        f, g = sp.ambient(ctx, "f"), sp.ambient(ctx, "g")
        t = ctx.real("t")
        a, b, c = (m.egrad2rgrad(x.arr, e) for e in (f, g, f + t * g))
        if isinstance(c, list):
            for i, j, k in zip(a, b, c):
                ctx.equal(k, i + t * j, "linear in the gradient")
        else:
            ctx.equal(c, a + t * b, "linear in the gradient")
    return h


def instances(tier):
    return space_instances(tier, [("gradient", gradient),
                                  ("linear", additive)])
