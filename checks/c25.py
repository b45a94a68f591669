from .common import *
from .geometry import *

PROPERTY = "C25"


def leafs(a):
    return list(a) if isinstance(a, list) else [a]


def unitary(ctx, name, n, how):
    if how == "id" or n == 1:
        return ctx.eye(n, "c")
    if how == "real":
        return ctx.rot(name, False, n) + 0j
    return ctx.rot(name, True, n)


def point(ctx, sp, how):
    """point x = V diag(r)^2 V^H and, per matrix, unitary W: the vectors and
    other points considered are diag in the frame x^1/2 V W"""
    v, w = how
    Ts, Ws = [], []
    for i, l in enumerate(parts(sp)):
        if l.kind == "spv":
            Ts.append(None)
            Ws.append(None)
            continue
        ts, ws = [], []
        for j in range(l.k):
            nm = "x%d%s" % (i, letter(j))
            V = unitary(ctx, nm + "v", l.n, v)
            d = [ctx.real("%s_t%d" % (nm, i), pos=True)
                 for i in range(l.n - 1 if l.special else l.n)]
            if l.special:
                q = 1
                for e in d:
                    q = q * e
                d.append(1 / q if l.n > 1 else num1(ctx))
            W = unitary(ctx, nm + "w", l.n, w)
            if v != "id":
                ctx.register(V)
            if w != "id":
                ctx.register(V @ W if v != "id" else W)
            ts.append(V @ ctx.diag(d, "c"))
            ws.append(W)
        Ts.append(ts)
        Ws.append(ws)
    if hasattr(sp, "leaves"):
        return sp._p([l.at(ctx, T) if T is not None else
                      l.pt(ctx, "x%d" % i, "full")
                      for i, (l, T) in enumerate(zip(sp.leaves, Ts))]), Ws
    if sp.kind == "spv":
        return sp.pt(ctx, "x", "full"), Ws
    return sp.at(ctx, Ts[0]), Ws


def num1(ctx):
    return fr(ctx, 1, 1)


def eigs(ctx, sp):
    """free eigenvalues of a tangent vector per leaf and matrix"""
    out = []
    for i, l in enumerate(parts(sp)):
        if l.kind == "spv":
            out.append(ctx.reals("e%d" % i, (l.n, l.k), lo=-1, hi=1))
            continue
        es = []
        for j in range(l.k):
            e = [ctx.real("e%d%s_%d" % (i, letter(j), q), lo=-1, hi=1)
                 for q in range(l.n - 1 if l.special else l.n)]
            if l.special:
                e.append(-sum(e) if l.n > 1 else 0 * num1(ctx))
            es.append(e)
        out.append(es)
    return out


def poss(ctx, sp):
    """free relative eigenvalues of a second point"""
    out = []
    for i, l in enumerate(parts(sp)):
        if l.kind == "spv":
            out.append(ctx.reals("y%d" % i, (l.n, l.k), pos=True))
            continue
        es = []
        for j in range(l.k):
            e = [ctx.real("y%d%s_%d" % (i, letter(j), q), pos=True)
                 for q in range(l.n - 1 if l.special else l.n)]
            if l.special:
                q = num1(ctx)
                for a in e:
                    q = q * a
                e.append(1 / q)
            es.append(e)
        out.append(es)
    return out


def build(ctx, sp, x, Ws, es, f):
    """the array with coordinates f(eigenvalues) in the frame"""
    out = []
    for l, p, W, e in zip(parts(sp), getattr(x, "parts", None) or [x], Ws,
                          es):
        if l.kind == "spv":
            out.append(Vec(p.arr * f(e), f(e)))
        else:
            out.append(l.lift(ctx, p, [
                w @ ctx.diag([f(q) for q in ee], "c") @ H(w)
                for w, ee in zip(W, e)]))
    return sp._v(out) if hasattr(sp, "leaves") else out[0]


def id_(z):
    return z


def compare(ctx, a, b, label):
    for i, j in zip(leafs(a), leafs(b)):
        ctx.equal(i, j, label)


def arr(v):
    return v.arr


def exponential(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x, W = point(ctx, sp, how)
        e = eigs(ctx, sp)
        u = build(ctx, sp, x, W, e, id_)
        y = m.exp(x.arr, u.arr)
        compare(ctx, y, build(ctx, sp, x, W, e, np.exp).arr,
                "geodesic from the point along the vector")
        if how == ("id", "id") or all(l.kind == "spv" for l in parts(sp)):
            sp.check_point(ctx, x, y, "exponential")
        else:
            sp.check_shape(ctx, y, "exponential")
            for l, a in zip(parts(sp), leafs(y)):
                if l.kind != "spv":
                    for q in unstack(a, l.k):
                        hermitian(ctx, q, "Hermitian")
        compare(ctx, m.exp(x.arr, m.zerovec(x.arr)), x.arr, "zero vector")
    return h


def logarithm(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x, W = point(ctx, sp, how)
        f = poss(ctx, sp)
        y = build(ctx, sp, x, W, f, id_)
        u = m.log(x.arr, y.arr)
        compare(ctx, u, build(ctx, sp, x, W, f, np.log).arr,
                "velocity of the geodesic to the other point")
        if how == ("id", "id"):
            sp.check_tangent(ctx, x, u, "logarithm")
        else:
            sp.check_shape(ctx, u, "logarithm")
    return h


def roundtrip(sp, how):
    def h(ctx):
        m = sp.make(ctx)
        x, W = point(ctx, sp, how)
        f = poss(ctx, sp)
        y = build(ctx, sp, x, W, f, id_)
        compare(ctx, m.exp(x.arr, m.log(x.arr, y.arr)), y.arr,
                "exponential of the logarithm")
        e = eigs(ctx, sp)
        u = build(ctx, sp, x, W, e, id_)
        compare(ctx, m.log(x.arr, m.exp(x.arr, u.arr)), u.arr,
                "logarithm of the exponential")
        if hasattr(sp, "leaves"):
            if any(l.kind == "spv" and l.k > 1 for l in sp.leaves):
                return
        if how == ("id", "id"):
            n = m.norm(x.arr, u.arr)
            d = m.dist(x.arr, m.exp(x.arr, u.arr))
            ctx.equal(d * d, n * n, "distance to the endpoint")
    return h


def symmetric(sp, how):
    """the geodesic back"""
    def h(ctx):
        m = sp.make(ctx)
        x, W = point(ctx, sp, how)
        f = poss(ctx, sp)
        y = build(ctx, sp, x, W, f, id_)
        n, d = m.norm(x.arr, m.log(x.arr, y.arr)), \
            m.norm(y.arr, m.log(y.arr, x.arr))
        ctx.equal(n * n, d * d, "both ways equally long")
    return h


def instances(tier):
    out = []
    T = tier != "quick"
    for sp, _ in spaces(tier):
        mats = [l for l in parts(sp) if l.kind != "spv"]
        hows = [("id", "id")]
        n = max([l.n for l in mats], default=0)
        k = sum(l.k for l in mats if l.n > 1)
        if n > 1:
            hows += [("cplx", "id"), ("id", "cplx"), ("real", "real")]
            if n == 2:
                hows.append(("cplx", "cplx"))
        for how in hows:
            for nm, f in (("exp", exponential), ("log", logarithm),
                          ("roundtrip", roundtrip), ("back", symmetric)):
                if nm == "back" and how != ("id", "id"):
                    continue
                out.append(Instance(
                    "%s-%s-%s" % (nm, sp.name, "-".join(how)), f(sp, how),
                    bounds="%s, eigenvectors of the point: %s, of the "
                    "vector: %s" % ((sp.name,) + how)))
    how = ("id", "id")
    for sp in large_spaces():
        for nm, f in (("exp", exponential), ("log", logarithm),
                      ("roundtrip", roundtrip), ("back", symmetric)):
            out.append(Instance("%s-wide-%s" % (nm, sp.name), f(sp, how),
                                bounds="%s, diagonal" % sp.name))
    return out
