from .common import *
from .geometry import *
from .c25 import leafs, point, build, poss, id_

PROPERTY = "C27"


def ends(ctx, sp, how):
    """two points x = T T^H, y = T F^2 T^H with their frames T, T F"""
    if hasattr(sp, "leaves"):
        r = [ends_leaf(ctx, l, how, str(i))
             for i, l in enumerate(sp.leaves)]
        return sp._p([a for a, _ in r]), sp._p([b for _, b in r])
    return ends_leaf(ctx, sp, how, "")


def ends_leaf(ctx, l, how, tag_):
    if l.kind == "spv":
        return l.pt(ctx, "x" + tag_, how), l.pt(ctx, "y" + tag_, how)
    x = l.pt(ctx, "x" + tag_, how)
    Ts = []
    for j, T in enumerate(x.T):
        f = [ctx.real("f%s%d%d" % (tag_, j, i), pos=True)
             for i in range(l.n - 1 if l.special else l.n)]
        if l.special:
            q = fr(ctx, 1, 1)
            for e in f:
                q = q * e
            f.append(1 / q)
        ctx.similar(T)
        Y = T @ ctx.diag(f, "c")
        if ctx.wide and l.n > 1:
            ctx.frames.append((Y, ctx.diag([1 / e for e in f], "c")
                               @ inv_frame(ctx, T)))
        Ts.append(Y)
    return x, l.at(ctx, Ts)


def transport(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x, y = ends(ctx, sp, how)
        u = sp.vec(ctx, x, "u")
        r = m.transp(x.arr, y.arr, u.arr)
        sp.check_tangent(ctx, y, r, "transported vector")
        S = [p.S for p in u.parts] if hasattr(sp, "leaves") else u.S
        for a, b in zip(leafs(r), leafs(sp.lift(ctx, y, S).arr)):
            ctx.equal(a, b, "parallel along the geodesic")
    return h


def isometry(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x, y = ends(ctx, sp, how)
        u, v = sp.vec(ctx, x, "u"), sp.vec(ctx, x, "v")
        a, b = (m.transp(x.arr, y.arr, w.arr) for w in (u, v))
        ctx.equal(m.inner(y.arr, a, b), m.inner(x.arr, u.arr, v.arr),
                  "inner products kept")
    return h


def back(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x, y = ends(ctx, sp, how)
        u = sp.vec(ctx, x, "u")
        u0 = [a.copy() for a in leafs(u.arr)]
        for a, b in zip(leafs(m.transp(x.arr, x.arr, u.arr)),
                        leafs(u.arr)):
            ctx.equal(a, b, "to the point itself")
        w = m.transp(y.arr, x.arr, m.transp(x.arr, y.arr, u.arr))
        for a, b in zip(leafs(w), leafs(u.arr)):
            ctx.equal(a, b, "and back")
        for a, b in zip(leafs(u.arr), u0):
            ctx.equal(a, b, "vector untouched")
    return h


def linear(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x, y = ends(ctx, sp, how)
        u, v = sp.vec(ctx, x, "u"), sp.vec(ctx, x, "v")
        t = ctx.real("t")
        from .c26 import plus, scal
        w = m.transp(x.arr, y.arr, plus(sp, u.arr, scal(sp, t, v)))
        a, b = (m.transp(x.arr, y.arr, z.arr) for z in (u, v))
        for p, q, r in zip(leafs(w), leafs(a), leafs(b)):
            ctx.equal(p, q + t * r, "linear")
    return h


def velocity(sp, how):
    """along a geodesic the velocity becomes the velocity"""
    def h(ctx):
        m = sp.make(ctx)
        x, W = point(ctx, sp, how)
        y = build(ctx, sp, x, W, poss(ctx, sp), id_)
        if ctx.sym:
            for l, p, w in zip(parts(sp), getattr(x, "parts", None) or [x],
                               W):
                if l.kind != "spv":
                    for T, q in zip(p.T, w):
                        ctx.similar(T @ q)
        a = m.transp(x.arr, y.arr, m.log(x.arr, y.arr))
        for p, q in zip(leafs(a), leafs(m.log(y.arr, x.arr))):
            ctx.equal(p, -q, "velocity to velocity")
    return h


def instances(tier):
    out = space_instances(tier, [
        ("parallel", transport), ("isometry", isometry), ("back", back),
        ("linear", linear)])
    for sp, _ in spaces(tier):
        out.append(Instance("velocity-" + sp.name,
                            velocity(sp, ("id", "id")),
                            bounds=sp.name + ", diagonal"))
    for sp in large_spaces():
        out.append(Instance("velocity-wide-" + sp.name,
                            velocity(sp, ("id", "id")),
                            bounds=sp.name + ", diagonal"))
    return out
