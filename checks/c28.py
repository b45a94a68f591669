from symx.shim import control_random
from .common import *
from .geometry import *
from .c25 import leafs

PROPERTY = "C28"


def projection(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        v = sp.vec(ctx, x, "v")
        g = sp.ambient(ctx, "g")
        g0 = [a.copy() for a in leafs(g)]
        p = m.proj(x.arr, g)
        sp.check_tangent(ctx, x, p, "projection")
        for a, b in zip(leafs(m.proj(x.arr, p)), leafs(p)):
            ctx.equal(a, b, "idempotent")
        for a, b in zip(leafs(m.proj(x.arr, v.arr)), leafs(v.arr)):
            ctx.equal(a, b, "tangent vectors are kept")
        ctx.equal(m.inner(x.arr, g, v.arr), m.inner(x.arr, p, v.arr),
                  "orthogonal in the metric")
        for a, b in zip(leafs(g), g0):
            ctx.equal(a, b, "input untouched")
    return h


def kron_projection(sp, how):
    """the Kronecker metric of ambient matrices is not defined; the
    components are projected"""
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        g = sp.ambient(ctx, "g")
        v = sp.vec(ctx, x, "v")
        p = m.proj(x.arr, g)
        sp.check_tangent(ctx, x, p, "projection")
        for a, b in zip(leafs(m.proj(x.arr, p)), leafs(p)):
            ctx.equal(a, b, "idempotent")
        for a, b in zip(leafs(m.proj(x.arr, v.arr)), leafs(v.arr)):
            ctx.equal(a, b, "tangent vectors are kept")
    return h


def random_point(sp):
    def h(ctx):
        m = sp.make(ctx)
        with control_random(ctx) as R:
            x = m.rand()
        sp.check_shape(ctx, x, "random point")
        V = [e[3] for e in R.log if e[0] == "group"]
        for l, a in zip(parts(sp), leafs(x)):
            if l.kind == "spv":
                for i in np.ndindex(*l.shape):
                    ctx.positive(a[i], "positive")
                continue
            for q in unstack(a, l.k):
                hermitian(ctx, q, "Hermitian")
                if l.n <= 2:
                    if l.special:
                        ctx.equal(det2(q).real, 1, "unit determinant")
                    else:
                        ctx.positive(det2(q).real, "positive determinant")
                    for i in range(l.n):
                        ctx.positive(q[i, i].real, "positive diagonal")
    return h


def random_vector(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        with control_random(ctx) as R:
            R.nonzero = True
            u = m.randvec(x.arr)
        sp.check_tangent(ctx, x, u, "random vector")
        q = m.inner(x.arr, u, u)
        ctx.equal(q, 0 * q + 1, "unit norm")
        n = m.norm(x.arr, u)
        ctx.equal(n * n, 0 * n + 1, "unit norm")
        z = sp.metric(ctx, sp.lower(ctx, x, u), sp.lower(ctx, x, u))
        ctx.equal(z, 0 * z + 1, "unit norm")
    return h


def zero(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x = sp.pt(ctx, "x", how)
        z = m.zerovec(x.arr)
        sp.check_tangent(ctx, x, z, "zero vector")
        for a in leafs(z):
            ctx.equal(a, 0 * a, "zero")
        v = sp.vec(ctx, x, "v")
        for a, b in zip(leafs(z), leafs(v.arr)):
            ctx.equal(a + b, b, "neutral")
        # what is done to one zero vector does not show in the next
        for a, b in zip(leafs(z), leafs(v.arr)):
            if a.ndim and not (ctx.kindof(b) == "c" and
                               ctx.kindof(a) == "f"):
                a += b
        for a in leafs(m.zerovec(x.arr)):
            ctx.equal(a, 0 * a, "zero again")
    return h


def dimension(sp, how):
    """the dimension reported is the number of free coordinates of a tangent
    vector"""
    def h(ctx):
        m = sp.make(ctx)
        n = 0
        for l in parts(sp):
            n += l.dim
        d = m.dim
        ctx.true(int(d) == n and d == int(d), "dimension",
                 "%r instead of %r" % (d, n))
        # the coordinates are independent: the code's Gram determinant is
        # that of the identity in the frame, checked coordinate by coordinate
        if isinstance(sp, Leaf) and sp.kind != "spv":
            x = sp.pt(ctx, "x", how)
            basis = hermitian_basis(ctx, sp)
            ctx.true(len(basis) == n, "basis size")
            es = [sp.lift(ctx, x, b) for b in basis]
            for i, a in enumerate(es):
                for b in es[:i]:
                    q = m.inner(x.arr, a.arr, b.arr)
                    ctx.equal(q, 0 * q, "orthogonal basis vectors")
                ctx.positive(m.inner(x.arr, a.arr, a.arr), "nonzero")
                for p, q in zip(leafs(m.proj(x.arr, a.arr)), leafs(a.arr)):
                    ctx.equal(p, q, "basis vector is tangent")
    return h


def hermitian_basis(ctx, l):
    n, k, out = l.n, l.k, []
    one = []
    for i in range(n):
        for j in range(i):
            for z in (1, 1j):
                M = np.zeros((n, n), dtype=complex)
                M[i, j], M[j, i] = z, np.conj(z)
                one.append(M)
    for i in range(n - 1 if l.special else n):
        M = np.zeros((n, n), dtype=complex)
        if l.special:
            for j in range(i + 1):
                M[j, j] = 1
            M[i + 1, i + 1] = -(i + 1)
        else:
            M[i, i] = 1
        one.append(M)
    for j in range(k):
        for M in one:
            z = [ctx.zeros((n, n), "c") for _ in range(k)]
            z[j] = ctx.array(M.tolist(), "c")
            out.append(z)
    return out


def instances(tier):
    out = space_instances(tier, [("zero", zero), ("dim", dimension)])
    for sp, hows in spaces(tier):
        for how in hows:
            f = kron_projection if isinstance(sp, Kron) else projection
            out.append(Instance("proj-%s-%s" % (sp.name, how), f(sp, how),
                                bounds="%s, %s frames" % (sp.name, how)))
        out.append(Instance("rand-" + sp.name, random_point(sp),
                            bounds=sp.name))
        if not sp.dim:
            continue
        n = max([l.n for l in parts(sp) if l.kind != "spv"], default=1)
        for how in ("diag",) if n == 1 else ("diag", "chol"):
            out.append(Instance("randvec-%s-%s" % (sp.name, how),
                                random_vector(sp, how),
                                bounds="%s, %s" % (sp.name, how)))
    for sp in large_spaces():
        f = kron_projection if isinstance(sp, Kron) else projection
        b = sp.name + ", one entry of each frame and vector and the ends " \
            "of arrays arbitrary"
        out.append(Instance("proj-wide-" + sp.name, wide(f(sp, "full")),
                            bounds=b))
        n = max([l.n for l in parts(sp) if l.kind != "spv"], default=1)
        if n < 4:
            out.append(Instance("rand-wide-" + sp.name,
                                wide(random_point(sp)), bounds=sp.name))
        if sp.name != "shpd5":
            out.append(Instance("randvec-wide-" + sp.name,
                                wide(random_vector(sp, "full")), bounds=b))
    return out
