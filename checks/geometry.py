"""The package's manifolds with reference geometry.

A point is x = T T^H for an invertible frame T and a tangent vector there
u = T S T^H with S Hermitian (of zero trace on the unit determinant
manifolds): every point and vector of the stated size is of that form.  In
these coordinates the affine-invariant metric is Re tr(S S') and all maps
have simple closed forms, the reference the code is compared with."""
from .common import *


class Point:
    """arr: what the code gets; T: frames (leaf, matrix)"""
    def __init__(self, arr, T=None, parts=None, x=None):
        self.arr, self.T, self.parts = arr, T, parts


class Vec:
    def __init__(self, arr, S=None, parts=None):
        self.arr, self.S, self.parts = arr, S, parts


def stack(ctx, Ms):
    if len(Ms) == 1:
        return Ms[0]
    n = Ms[0].shape[0]
    r = ctx.zeros((len(Ms), n, n), "c")
    for i, M in enumerate(Ms):
        r[i] = M
    return r


def unstack(a, k):
    return [a] if k == 1 else [a[i] for i in range(k)]


def low3(ctx, name, n):
    L = ctx.zeros((n, n), "c")
    for i in range(n):
        for j in range(i):
            L[i, j] = ctx.real("%s_l%d%d" % (name, i, j), lo=-.8, hi=.8) + \
                1j * ctx.real("%s_m%d%d" % (name, i, j), lo=-.8, hi=.8)
        L[i, i] = ctx.real("%s_l%d" % (name, i), pos=True) + 0j
    return L


def frame(ctx, name, n, how, special):
    """invertible T; for the unit determinant manifold |det T| = 1"""
    c = "c"
    if n == 1:
        a = ctx.eye(1, c)
        return a if special else ctx.real(name + "_t", pos=True) * a
    if ctx.wide:
        V = ctx.wide_basis(n, True)
        d = [ctx.real(name + "_t", pos=True)] + [
            ctx.frac(2 + i, 3) for i in range(n - 1)]
        if special:
            q = 1
            for x in d[:-1]:
                q = q * x
            d[-1] = 1 / q
        ctx.register(V)
        T = V @ ctx.diag(d, c)
        ctx.frames = getattr(ctx, "frames", []) + [
            (T, ctx.diag([1 / x for x in d], c) @ H(V))]
        return T
    if how == "diag":
        d = [ctx.real("%s_t%d" % (name, i), pos=True)
             for i in range(n - 1 if special else n)]
        if special:
            q = 1
            for x in d:
                q = q * x
            d.append(1 / q)
        return ctx.diag(d, c)
    if how == "chol":
        L = low3(ctx, name, n)
        if special:
            q = 1
            for i in range(n - 1):
                q = q * L[i, i]
            L[n - 1, n - 1] = 1 / q
        return L
    if how == "full":
        # rows by rows; the phases of the columns are immaterial
        a = ctx.real(name + "_a", pos=True)
        b = ctx.real(name + "_b", lo=-.8, hi=.8)
        if special:
            b = b + 1j * ctx.real(name + "_bi", lo=-.8, hi=.8)
        cc = ctx.real(name + "_e", lo=-.8, hi=.8) + \
            1j * ctx.real(name + "_ei", lo=-.8, hi=.8)
        T = ctx.zeros((2, 2), c)
        T[0, 0], T[0, 1], T[1, 0] = a + 0j, b + 0j, cc
        if special:
            T[1, 1] = (1 + b * cc) / a
        else:
            T[1, 1] = ctx.real(name + "_f", pos=True, lo=.9) + \
                1j * ctx.real(name + "_fi", lo=-.8, hi=.8)
            d = det2(T)
            ctx.assume((d * d.conj()).real > 0)
        return T
    if how == "spec":
        # square root of the point
        V = ctx.rot(name, True, n)
        d = [ctx.real("%s_t%d" % (name, i), pos=True)
             for i in range(n - 1 if special else n)]
        if special:
            q = 1
            for x in d:
                q = q * x
            d.append(1 / q)
        ctx.register(V)
        return V @ ctx.diag(d, c)
    raise ValueError(how)


def inv_frame(ctx, T):
    n = T.shape[0]
    for t, i in getattr(ctx, "frames", []):
        if t is T:
            return i
    if n <= 2:
        return inv2(ctx, T)
    off = [(i, j) for i in range(n) for j in range(n) if i < j]
    if all(_zero(T[i, j]) for i, j in off):
        return low_inv(ctx, T, n, True)
    raise ValueError


def _zero(z):
    return z.is_zero() if hasattr(z, "is_zero") else z == 0


def sym(ctx, name, n, how, special):
    """Hermitian matrix, trace zero if special.  how: full, diag"""
    S = ctx.zeros((n, n), "c")
    t = 0
    for i in range(n):
        if special and i == n - 1:
            S[i, i] = -t + 0j if n > 1 else 0j
        else:
            d = ctx.real("%s_s%d" % (name, i), lo=-1, hi=1) \
                if i == 0 or not ctx.wide else ctx.frac(2 * i - n, 2 * n)
            S[i, i] = d + 0j
            t = t + d
        if how == "diag":
            continue
        for j in range(i):
            z = ctx.real("%s_s%d%d" % (name, i, j), lo=-1, hi=1) + \
                1j * ctx.real("%s_z%d%d" % (name, i, j), lo=-1, hi=1) \
                if not ctx.wide or (i, j) == (n - 1, 0) else \
                ctx.frac(i - 2 * j, 4 * n) + 1j * ctx.frac(i + j, 5 * n)
            S[i, j], S[j, i] = z, z.conjugate()
    return S


def letter(i):
    return "abc"[i] if i < 3 else "m%d" % i


def reals(ctx, nm, shape, **kw):
    """in large arrays the ends are arbitrary, the others fixed"""
    if not ctx.wide:
        return ctx.reals(nm, shape, **kw)
    r = ctx.zeros(shape, "f")
    idx = list(np.ndindex(*shape))
    for q, i in enumerate(idx):
        r[i] = ctx.real("%s_%d" % (nm, q), **kw) \
            if q in (0, len(idx) - 1) else ctx.frac(q % 7 + 1, 4)
    return r


class Leaf:
    def __init__(self, kind, n, k=1):
        self.kind, self.n, self.k = kind, n, k
        self.special = kind == "shpd"
        self.name = "%s%d" % (kind, n) + ("x%d" % k if k > 1 else "")

    def make(self, ctx):
        ctx.exact = True        # norms are expanded, however large
        c = dict(spv="StrictlyPositiveVectors",
                 hpd="HermitianPositiveDefinite",
                 shpd="SpecialHermitianPositiveDefinite")[self.kind]
        c = getattr(man(), c)
        return ctx.kept("%s%dx%d" % (self.kind, self.n, self.k), lambda:
                        c(self.n) if self.k == 1 else c(self.n, self.k))

    @property
    def dim(self):
        n, k = self.n, self.k
        return k * dict(spv=n, hpd=n * n, shpd=n * n - 1)[self.kind]

    @property
    def shape(self):
        if self.kind == "spv":
            return (self.n, self.k)
        return (self.n,) * 2 if self.k == 1 else (self.k, self.n, self.n)

    def pt(self, ctx, nm, how):
        if self.kind == "spv":
            return Point(ctx.laid(reals(ctx, nm, (self.n, self.k), pos=True),
                                  nm))
        T = [frame(ctx, nm + letter(i), self.n, how, self.special)
             for i in range(self.k)]
        return self.at(ctx, T, nm)

    def at(self, ctx, T, nm=None):
        nm = nm or ctx.serial("point")
        return Point(ctx.laid(stack(ctx, [ctx.hermitise(t @ H(t))
                                          for t in T]), nm), T)

    def vec(self, ctx, P, nm, how="full"):
        if self.kind == "spv":
            u = reals(ctx, nm, (self.n, self.k))
            return Vec(ctx.laid(u, nm), u / P.arr)
        S = [sym(ctx, nm + letter(i), self.n, how, self.special)
             for i in range(self.k)]
        return self.lift(ctx, P, S, nm)

    def lift(self, ctx, P, S, nm=None):
        nm = nm or ctx.serial("vector")
        if self.kind == "spv":
            return Vec(P.arr * S, S)
        return Vec(ctx.laid(stack(ctx, [ctx.hermitise(t @ s @ H(t))
                                        for t, s in zip(P.T, S)]), nm), S)

    def lower(self, ctx, P, arr):
        """coordinates of an array at P"""
        if self.kind == "spv":
            return Vec(arr, arr / P.arr)
        out = []
        for t, m in zip(P.T, unstack(arr, self.k)):
            i = inv_frame(ctx, t)
            out.append(i @ m @ H(i))
        return Vec(arr, out)

    def ambient(self, ctx, nm):
        if self.kind == "spv":
            return reals(ctx, nm, (self.n, self.k))
        return ctx.data(nm, self.shape, True)

    def metric(self, ctx, U, V, w=None):
        if self.kind == "spv":
            r = (U.S * V.S).sum(axis=0, keepdims=True)
            return r
        s = 0
        for a, b in zip(U.S, V.S):
            n = self.n
            for i in range(n):
                for j in range(n):
                    s = s + (a[i, j] * b[j, i]).real
        return s

    def check_shape(self, ctx, a, label, real=True):
        ctx.true(tuple(np.shape(a)) == self.shape, label + ": shape")
        ctx.true(ctx.kindof(a) == ("f" if self.kind == "spv" else "c"),
                 label + ": kind")

    def check_tangent(self, ctx, P, a, label):
        self.check_shape(ctx, a, label)
        if self.kind == "spv":
            return
        for m in unstack(a, self.k):
            hermitian(ctx, m, label + ": Hermitian")
        if self.special:
            for s in self.lower(ctx, P, a).S:
                t = 0
                for i in range(self.n):
                    t = t + s[i, i].real
                ctx.equal(t, 0 * t, label + ": tangent to unit determinant")

    def check_point(self, ctx, P, a, label):
        """a is a point; positivity is seen in the frame of P"""
        self.check_shape(ctx, a, label)
        if self.kind == "spv":
            for i in np.ndindex(*self.shape):
                ctx.positive(a[i], label + ": positive")
            return
        for m in unstack(a, self.k):
            hermitian(ctx, m, label + ": Hermitian")
        for m in (self.lower(ctx, P, a).S if P is not None else
                  unstack(a, self.k)):
            minors(ctx, m, label + ": positive definite")
        if self.special and self.n <= 3:
            for m in unstack(a, self.k):
                ctx.equal(det3(m).real, 1, label + ": unit determinant")

    def euclid(self, ctx, g, V):
        """Euclidean directional derivative Re <g, v>"""
        g = g if self.kind == "spv" else g.conj()
        p = (g * V.arr)
        p = p if self.kind == "spv" else p.real
        if self.kind == "spv":
            return p.sum(axis=0, keepdims=True)
        return p.sum()

    def norm_is(self, ctx, val, U, label):
        m = self.metric(ctx, U, U)
        ctx.equal(val * val, m, label)
        if self.kind == "spv":
            for j in range(self.k):
                ctx.le(0, val[0, j], label + ": nonnegative")
        else:
            ctx.le(0, val, label + ": nonnegative")


def det3(m):
    n = m.shape[0]
    if n <= 2:
        return det2(m)
    return m[0, 0] * det2(m[1:, 1:]) - m[0, 1] * (
        m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0]) + m[0, 2] * (
        m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0])


def minors(ctx, m, label):
    for i in range(min(m.shape[0], 3)):
        ctx.positive(det3(m[:i + 1, :i + 1]).real, label)


class Prod:
    """weighted product (weights None, numbers or symbolic)"""
    def __init__(self, leaves, weighted=True):
        self.leaves, self.weighted = leaves, weighted
        self.name = "prod-" + "-".join(l.name for l in leaves) + (
            "" if weighted else "-unweighted")

    def make(self, ctx):
        ms = [l.make(ctx) for l in self.leaves]
        if not self.weighted:
            self.w = [1] * len(ms)
            return man().WeightedProduct(ms)
        self.w = [ctx.real("weight%d" % i, pos=True)
                  for i in range(len(ms))]
        return man().WeightedProduct(ms, self.w)

    @property
    def dim(self):
        return sum(l.dim for l in self.leaves)

    def pt(self, ctx, nm, how):
        return self._p([l.pt(ctx, nm + str(i), how)
                        for i, l in enumerate(self.leaves)])

    def _p(self, ps):
        return Point([p.arr for p in ps], parts=ps)

    def _v(self, vs):
        T = _tv()
        return Vec(T([v.arr for v in vs]), parts=vs)

    def at(self, ctx, Ts):
        return self._p([l.at(ctx, T) for l, T in zip(self.leaves, Ts)])

    def vec(self, ctx, P, nm, how="full"):
        return self._v([l.vec(ctx, p, nm + str(i), how) for i, (l, p) in
                        enumerate(zip(self.leaves, P.parts))])

    def lower(self, ctx, P, arr):
        return self._v([l.lower(ctx, p, a) for l, p, a in
                        zip(self.leaves, P.parts, arr)])

    def lift(self, ctx, P, S):
        return self._v([l.lift(ctx, p, s) for l, p, s in
                        zip(self.leaves, P.parts, S)])

    def ambient(self, ctx, nm):
        return _tv()([l.ambient(ctx, nm + str(i))
                      for i, l in enumerate(self.leaves)])

    def metric(self, ctx, U, V):
        s = 0
        for l, w, a, b in zip(self.leaves, self.w, U.parts, V.parts):
            m = l.metric(ctx, a, b)
            if l.kind == "spv":
                m = m.sum()
            s = s + w * m
        return s

    def check_shape(self, ctx, arr, label):
        ctx.true(len(arr) == len(self.leaves), label + ": length")
        for l, a in zip(self.leaves, arr):
            l.check_shape(ctx, a, label)

    def check_tangent(self, ctx, P, arr, label):
        ctx.true(len(arr) == len(self.leaves), label + ": length")
        for l, p, a in zip(self.leaves, P.parts, arr):
            l.check_tangent(ctx, p, a, label)

    def check_point(self, ctx, P, arr, label):
        ctx.true(len(arr) == len(self.leaves), label + ": length")
        ps = P.parts if P is not None else [None] * len(self.leaves)
        for l, p, a in zip(self.leaves, ps, arr):
            l.check_point(ctx, p, a, label)

    def euclid(self, ctx, g, V):
        s = 0
        for l, a, v in zip(self.leaves, g, V.parts):
            m = l.euclid(ctx, a, v)
            if l.kind == "spv":
                m = m.sum()
            s = s + m
        return s

    def norm_is(self, ctx, val, U, label):
        ctx.equal(val * val, self.metric(ctx, U, U), label)
        ctx.le(0, val, label + ": nonnegative")


def _tv():
    from pymanopt.manifolds.product import _ProductTangentVector
    return _ProductTangentVector


class Kron(Prod):
    """A (unit determinant) and B with the Fisher metric of an elliptical
    law"""
    def __init__(self, a, b, k=1):
        self.a, self.b, self.k = a, b, k
        self.leaves = [Leaf("shpd", a, k), Leaf("hpd", b, k)]
        self.name = "kron%d%d" % (a, b) + ("x%d" % k if k > 1 else "")

    def make(self, ctx):
        # the metric is positive definite iff alpha > n / (n + 1)
        n = self.a * self.b
        e = ctx.real("alpha", pos=True, lo=.05, hi=1.2)
        self.alpha = e + fr(ctx, n, n + 1)
        self.w = [self.alpha * self.b, self.alpha * self.a]
        c = man().KroneckerHermitianPositiveElliptical
        return c(self.a, self.b, self.alpha) if self.k == 1 else \
            c(self.a, self.b, self.alpha, self.k)

    def metric(self, ctx, U, V):
        s = super().metric(ctx, U, V)
        for p, q in zip(U.parts[1].S, V.parts[1].S):
            tp = tq = 0
            for i in range(self.b):
                tp, tq = tp + p[i, i].real, tq + q[i, i].real
            s = s + (self.alpha - 1) * self.a ** 2 * tp * tq
        return s


def parts(space):
    return getattr(space, "leaves", [space])


def spaces(tier, spvk=True, kron=True, special=True, three=True):
    """(space, frame kinds)"""
    out = []
    T = tier != "quick"
    for n, k in ((1, 1), (2, 1), (3, 1)) + (((2, 2), (1, 3)) if spvk else ())\
            + (((4, 1), (3, 2)) if T and spvk else ()):
        out.append((Leaf("spv", n, k), ("full",)))
    for kd in ("hpd",) + (("shpd",) if special else ()):
        for n, k in ((1, 1), (2, 1), (1, 2), (2, 2)) + (
                ((2, 3), (1, 3)) if T else ()):
            out.append((Leaf(kd, n, k), ("full",) if n < 3 else ("diag",)))
        if three:
            out.append((Leaf(kd, 3, 1), ("diag", "chol")))
    out.append((Prod([Leaf("spv", 2), Leaf("hpd", 2)]), ("full",)))
    out.append((Prod([Leaf("hpd", 1), Leaf("spv", 1)], False), ("full",)))
    if special:
        out.append((Prod([Leaf("hpd", 2), Leaf("shpd", 2)]), ("full",)))
        out.append((Prod([Leaf("shpd", 2, 2), Leaf("spv", 1),
                          Leaf("hpd", 1, 2)]), ("full",)))
    else:
        out.append((Prod([Leaf("hpd", 2), Leaf("hpd", 2, 2)]), ("full",)))
    if kron:
        for a, b, k in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1),
                        (2, 1, 2), (1, 2, 2)) + (((2, 2, 2), (2, 2, 3))
                                                 if T else ((2, 2, 2),)):
            out.append((Kron(a, b, k), ("full",)))
    return out


def large_spaces(spvk=True, kron=True, special=True):
    out = [Leaf("spv", 40), Leaf("hpd", 5), Leaf("hpd", 2, 12)]
    if spvk:
        out.append(Leaf("spv", 3, 12))
    if special:
        out += [Leaf("shpd", 5), Leaf("shpd", 2, 12)]
    out.append(Prod([Leaf("hpd", 2), Leaf("spv", 3), Leaf("hpd", 1),
                     Leaf("spv", 1), Leaf("shpd" if special else "hpd", 2),
                     Leaf("hpd", 3)]))
    if kron:
        out += [Kron(3, 2), Kron(2, 4), Kron(2, 2, 12)]
    return out


def space_instances(tier, makers, **kw):
    out = []
    for sp, hows in spaces(tier, **kw):
        for how in hows:
            for nm, f in makers:
                h = f(sp, how)
                if h is None:
                    continue
                out.append(Instance(
                    "%s-%s-%s" % (nm, sp.name, how), h,
                    bounds="%s, %s frames" % (sp.name, how)))
    kw.pop("three", None)
    for sp in large_spaces(**kw):
        for nm, f in makers:
            h = f(sp, "full")
            if h is not None:
                out.append(Instance(
                    "%s-wide-%s" % (nm, sp.name), wide(h),
                    bounds="%s, one entry of each frame and vector and the "
                    "ends of arrays arbitrary" % sp.name))
    return out
