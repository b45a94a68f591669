from .common import *
from .geometry import *

PROPERTY = "C23"


def leafs(a):
    return list(a) if isinstance(a, list) else [a]


def scaled(v, t):
    """t times a tangent vector"""
    return _tvec([t * a for a in v]) if isinstance(v, list) else t * v


def _tvec(l):
    from pymanopt.manifolds.product import _ProductTangentVector
    return _ProductTangentVector(l)


def stays(sp, how):
    """vectors diagonal in the frame: with arbitrary frames these are all
    tangent vectors"""
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        u = sp.vec(ctx, x, "u", "diag")
        x0 = [a.copy() for a in leafs(x.arr)]
        u0 = [a.copy() for a in leafs(u.arr)]
        r = m.retr(x.arr, u.arr)
        sp.check_point(ctx, x, r, "retraction")
        for a, b in zip(leafs(x.arr), x0):
            ctx.equal(a, b, "point untouched")
        for a, b in zip(leafs(u.arr), u0):
            ctx.equal(a, b, "vector untouched")
    return h


def zero(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        r = m.retr(x.arr, m.zerovec(x.arr))
        for a, b in zip(leafs(r), leafs(x.arr)):
            ctx.equal(a, b, "zero vector")
    return h


def expansion(sp, how):
    """derivatives at zero: the vector, and the acceleration u x^-1 u of the
    geodesic"""
    def h(ctx):
        m = sp.make(ctx)

        def build():
            x = sp.pt(ctx, "x", how)
            return x, sp.vec(ctx, x, "u", "diag")
        x, u = build()
        S2 = []
        for l, p in zip(parts(sp), getattr(u, "parts", None) or [u]):
            S2.append(p.S * p.S if l.kind == "spv" else
                      [s @ s for s in p.S])
        a2 = sp.lift(ctx, x, S2 if hasattr(sp, "leaves") else S2[0])
        ctx.real("step", lo=-.5, hi=.5)
        for i in range(len(parts(sp))):
            def f():
                x, u = build()
                t = ctx.real("step", lo=-.5, hi=.5)
                return leafs(m.retr(x.arr, scaled(u.arr, t)))[i]
            tol = None if ctx.sym else 1e-6
            ctx.equal(ctx.partial(f, "step", at=0, order=0),
                      leafs(x.arr)[i], "starts at the point", tol=tol)
            ctx.equal(ctx.partial(f, "step", at=0), leafs(u.arr)[i],
                      "initial velocity", tol=tol)
            ctx.equal(ctx.partial(f, "step", at=0, order=2),
                      leafs(a2.arr)[i], "geodesic to second order",
                      tol=None if ctx.sym else 1e-4)
    return h


def instances(tier):
    return space_instances(tier, [("stays", stays), ("zero", zero),
                                  ("expansion", expansion)])
