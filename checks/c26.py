from .common import *
from .geometry import *
from .c25 import leafs, point, build, poss, id_, unitary, num1

PROPERTY = "C26"


def scal(sp, t, u):
    from pymanopt.manifolds.product import _ProductTangentVector as V
    return V([t * a for a in u.arr]) if hasattr(sp, "leaves") else t * u.arr


def plus(sp, u, w):
    from pymanopt.manifolds.product import _ProductTangentVector as V
    return V([a + b for a, b in zip(u, w)]) if hasattr(sp, "leaves") \
        else u + w


def inner(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        u, v, w = (sp.vec(ctx, x, n) for n in "uvw")
        i = m.inner(x.arr, u.arr, v.arr)
        ctx.equal(i, sp.metric(ctx, u, v), "the manifold's metric")
        ctx.true(ctx.kindof(i) == "f", "real")
        ctx.equal(m.inner(x.arr, v.arr, u.arr), i, "symmetric")
        t = ctx.real("t")
        ctx.equal(m.inner(x.arr, plus(sp, u.arr, scal(sp, t, w)), v.arr),
                  i + t * m.inner(x.arr, w.arr, v.arr), "bilinear")
        z = m.inner(x.arr, m.zerovec(x.arr), v.arr)
        ctx.equal(z, 0 * z, "zero vector")
    return h


def positive(sp, how):
    """<u, u> > 0 for u != 0; for the Kronecker metric with the stated range
    of alpha"""
    if sp.dim == 0:
        return None

    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        u = sp.vec(ctx, x, "u", "diag")
        i = m.inner(x.arr, u.arr, u.arr)
        s = []
        for l, q in zip(parts(sp), getattr(u, "parts", None) or [u]):
            if l.kind == "spv":
                s += list(q.S.reshape(-1))
            else:
                s += [e[j, j].real for e in q.S for j in range(l.n)]
        n2 = sum(a * a for a in s)
        ctx.assume(n2 > 0)
        if getattr(sp, "kind", "") == "spv" and sp.k > 1:
            for j in range(sp.k):
                ctx.le(0, i[0, j], "nonnegative")
            return
        ctx.positive(i if np.ndim(i) == 0 else i.reshape(-1)[0], "positive")
    return h


def norm(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        u = sp.vec(ctx, x, "u", "full" if how != "full" else "diag")
        sp.norm_is(ctx, m.norm(x.arr, u.arr), u, "norm")
    return h


def logs2(ctx, sp, es, kron=True):
    """squared distance from the relative eigenvalues"""
    w = getattr(sp, "w", None)
    tot = []
    for l, e in zip(parts(sp), es):
        if l.kind == "spv":
            q = np.log(e)
            tot.append((q * q).sum(axis=0, keepdims=True))
        else:
            s = 0
            for ee in e:
                for a in ee:
                    s = s + ln(ctx, a) * ln(ctx, a)
            tot.append(s)
    if w is None:
        return tot[0]
    s = 0
    for a, l, t in zip(w, parts(sp), tot):
        s = s + a * (t.sum() if l.kind == "spv" else t)
    if isinstance(sp, Kron):
        for ee in es[1]:
            d = sum(ln(ctx, a) for a in ee)
            s = s + (sp.alpha - 1) * sp.a ** 2 * d * d
    return s


def lower_point(ctx, sp, how):
    """x = L L^H with Cholesky factor L, frames L W"""
    if hasattr(sp, "leaves"):
        ps = [lower_point(ctx, l, how + (str(i),))
              for i, l in enumerate(sp.leaves)]
        return sp._p([p for p, _ in ps]), [w for _, w in ps]
    c, w = how[:2]
    nm = "x" + "".join(how[2:])
    if sp.kind == "spv":
        return sp.pt(ctx, nm, "full"), None
    T, W = [], []
    for j in range(sp.k):
        a = nm + letter(j)
        L = frame(ctx, a, sp.n, c if sp.n > 1 else "diag", sp.special)
        U = unitary(ctx, a + "w", sp.n, w)
        if w != "id":
            ctx.register(U)
        T.append(L)
        W.append(U)
    return sp.at(ctx, T), W


def distance(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x, W = lower_point(ctx, sp, how)
        W = W if hasattr(sp, "leaves") else [W]
        f = poss(ctx, sp)
        y = build(ctx, sp, x, W, f, id_)
        d = m.dist(x.arr, y.arr)
        ctx.equal(d * d, logs2(ctx, sp, f), "distance")
        ctx.true(ctx.kindof(d) == "f", "real")
        for e in np.asarray(d, dtype=object).reshape(-1) if not ctx.sym \
                else ([d] if np.ndim(d) == 0 else list(d.reshape(-1))):
            ctx.le(0, e, "nonnegative")
        z = m.dist(x.arr, x.arr)
        ctx.equal(z, 0 * z, "zero at equal points")
    return h


def invariant(sp, how):
    """congruence by a diagonal (triangular) matrix, inversion, symmetry"""
    def h(ctx):
        m = sp.make(ctx)
        x, W = lower_point(ctx, sp, how)
        W = W if hasattr(sp, "leaves") else [W]
        f = poss(ctx, sp)
        y = build(ctx, sp, x, W, f, id_)
        d = m.dist(x.arr, y.arr)
        e = m.dist(y.arr, x.arr)
        ctx.equal(e * e, d * d, "symmetric")
        if sp.__class__ is not Leaf:
            return
        if sp.kind == "spv":
            a, b = 1 / x.arr, 1 / y.arr
            s = ctx.reals("g", (sp.n, 1), pos=True)
            g, k = s * x.arr, s * y.arr
        else:
            g, k, a, b = [], [], [], []
            for i, (p, q) in enumerate(zip(unstack(x.arr, sp.k),
                                           unstack(y.arr, sp.k))):
                G = ctx.diag([ctx.real("g%d%d" % (i, j), pos=True)
                              for j in range(sp.n)], "c")
                if sp.special:
                    e = [G[j, j].real for j in range(sp.n - 1)]
                    z = num1(ctx)
                    for j in e:
                        z = z / j
                    G = ctx.diag(e + [z], "c")
                g.append(G @ p @ H(G))
                k.append(G @ q @ H(G))
                if sp.n <= 2:
                    a.append(inv2(ctx, p))
                    b.append(inv2(ctx, q))
                else:
                    a.append(ctx.diag([1 / p[j, j] for j in range(sp.n)],
                                      "c"))
                    b.append(ctx.diag([1 / q[j, j] for j in range(sp.n)],
                                      "c"))
            g, k, a, b = (stack(ctx, z) for z in (g, k, a, b))
        e = m.dist(a, b)
        ctx.equal(e * e, d * d, "inversion")
        e = m.dist(g, k)
        ctx.equal(e * e, d * d, "congruence")
    return h


def instances(tier):
    out = space_instances(tier, [("inner", inner), ("positive", positive)])
    for sp, _ in spaces(tier):
        mats = [l for l in parts(sp) if l.kind != "spv"]
        n = max([l.n for l in mats], default=1)
        for how in (("diag",) if n == 1 else ("diag", "chol")):
            out.append(Instance("norm-%s-%s" % (sp.name, how), norm(sp, how),
                                bounds=sp.name + ", " + how))
        hows = [("diag", "id")]
        if n > 1:
            hows += [("chol", "id"), ("diag", "cplx"), ("chol", "real")]
        for how in hows:
            out.append(Instance(
                "dist-%s-%s" % (sp.name, "-".join(how)), distance(sp, how),
                bounds="%s, %s factors, %s relative eigenvectors" % (
                    (sp.name,) + how)))
        out.append(Instance("invariant-" + sp.name,
                            invariant(sp, ("diag", "id")),
                            bounds=sp.name + ", diagonal"))
    for sp in large_spaces():
        out += [Instance("norm-wide-" + sp.name, wide(norm(sp, "full")),
                         bounds=sp.name + ", one entry of each frame and "
                         "vector and the ends of arrays arbitrary"),
                Instance("dist-wide-" + sp.name,
                         distance(sp, ("diag", "id")),
                         bounds=sp.name + ", diagonal"),
                Instance("invariant-wide-" + sp.name,
                         invariant(sp, ("diag", "id")),
                         bounds=sp.name + ", diagonal")]
    return out
