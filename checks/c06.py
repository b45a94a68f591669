from .common import *

PROPERTY = "C06"
NORMS = ("trace", "determinant", "element", "None")


def det(ctx, M):
    n = M.shape[0]
    if n == 1:
        return M[0, 0].real
    return (M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]).real


def constraint(ctx, S, S0, norm, p):
    """S is S0 rescaled so that the constraint of the normalisation holds"""
    if norm == "trace":
        t = sum(S[i, i].real for i in range(p))
        ctx.equal(t, p, "trace equals the dimension")
        c = sum(S0[i, i].real for i in range(p)) / p
        ctx.equal(S * c, S0, "proportional to the raw solution")
    elif norm == "determinant":
        if p > 2:
            ctx.equal(np.linalg.det(S).real, 1, "determinant equals one")
            ctx.equal(S * S0[0, 0], S0 * S[0, 0], "proportional")
            ctx.true(S[0, 0].real * S0[0, 0].real > 0, "positive multiple")
            return
        ctx.equal(det(ctx, S), 1, "determinant equals one")
        d = det(ctx, S0)
        ctx.equal(S * (d if p == 1 else ctx.root(d)), S0,
                  "positive multiple of the raw solution")
    elif norm == "element":
        ctx.equal(S[0, 0], 1, "first element equals one")
        ctx.equal(S * S0[0, 0], S0, "proportional to the raw solution")
    else:
        ctx.equal(S, S0, "left as it is")


def fixed(norm, cplx, p, N, k):
    def h(ctx):
        f = est().complex_tyler_shape_matrix_fixedpoint if cplx else \
            est().tyler_shape_matrix_fixedpoint
        X = ctx.data("x", (N, p), cplx)
        S0 = ctx.spd("s", p, cplx, "diag" if cplx else "spec")
        raw, e0, k0 = f(X, init=S0, tol=NEVER, iter_max=k)
        S, e1, k1 = f(X, init=S0, tol=NEVER, iter_max=k, normalisation=norm)
        constraint(ctx, S, raw, norm, p)
        ctx.equal(e1, e0, "the error is the one of the raw iteration")
        ctx.equal(k1, k0, "the count is the one of the raw iteration")
    return h


def high(norm, cplx, p, method, free):
    """many dimensions: samples along the axes keep a diagonal start
    diagonal; an optimiser's answer is arbitrary up to its scale"""
    def h(ctx):
        k = "c" if cplx else "f"
        if method == "natural gradient":
            cl = est().ComplexTylerShapeMatrix if cplx else \
                est().TylerShapeMatrix
            M = ctx.diag([fr(ctx, 2 + i % 3, 1) for i in range(p)], k)
            for i in range(p - 1):
                M[i, i + 1] = M[i, i + 1] + fr(ctx, 1, 2)
                M[i + 1, i] = M[i + 1, i] + fr(ctx, 1, 2)
            raw = M * ctx.real("s", pos=True)
            out = maps().covariancetoreal(raw) if cplx else raw
            with solver_stub(lambda problem, x: out):
                S = cl(method="natural gradient", normalisation=norm).fit(
                    ctx.data("x", (2, p), cplx)).covariance_
        else:
            f = est().complex_tyler_shape_matrix_fixedpoint if cplx else \
                est().tyler_shape_matrix_fixedpoint
            X = ctx.diag([fr(ctx, i % 4 + 1, 2) for i in range(p)], k)
            S0 = ctx.diag([ctx.real("r%d" % i, pos=True) if i < free else
                           fr(ctx, i % 5 + 1, 2) for i in range(p)], k)
            raw, _, _ = f(X, init=S0, tol=NEVER, iter_max=1)
            S, _, _ = f(X, init=S0, tol=NEVER, iter_max=1,
                        normalisation=norm)
        if norm == "determinant":
            # proportional by the same root of the determinant
            c = raw[0, 0].real / S[0, 0].real
            ctx.equal(S * c, raw, "proportional to the raw solution")
            ctx.true(c > 0, "positive multiple")
            d = np.linalg.det(raw).real
            ctx.equal(c ** p, d, "determinant equals one")
        else:
            constraint(ctx, S, raw, norm, p)
    return h


def default(cplx, p, N):
    """an unknown kind of normalisation leaves the solution as it is"""
    def h(ctx):
        f = est().complex_tyler_shape_matrix_fixedpoint if cplx else \
            est().tyler_shape_matrix_fixedpoint
        X = ctx.data("x", (N, p), cplx)
        raw, _, _ = f(X, tol=NEVER, iter_max=1, normalisation="None")
        for n in ("nothing known", "Trace", "TRACE", "traces", "tr", "trace ",
                  "det", "Determinant", "determinants", "first element",
                  "Element", "elements", "none", ""):
            S, _, _ = f(X, tol=NEVER, iter_max=1, normalisation=n)
            ctx.equal(S, raw, "left as it is")
        D, _, _ = f(X, tol=NEVER, iter_max=1)
        ctx.equal(D, raw, "no normalisation by default")
    return h


def klass(norm, cplx, p, N, method):
    def h(ctx):
        cl = est().ComplexTylerShapeMatrix if cplx else \
            est().TylerShapeMatrix
        X = ctx.data("x", (N, p), cplx)
        S0 = ctx.spd("s", p, cplx, "diag" if cplx else "spec")
        if method == "fixed-point":
            raw = cl(tol=NEVER, iter_max=1).fit(X, init=S0).covariance_
            S = cl(tol=NEVER, iter_max=1, normalisation=norm).fit(
                X, init=S0).covariance_
        else:
            raw = ctx.spd("w", p, cplx, "diag" if cplx and p > 1 else "spec")
            out = maps().covariancetoreal(raw) if cplx else raw
            with solver_stub(lambda problem, x: out):
                S = cl(method="natural gradient", normalisation=norm).fit(
                    X, init=S0).covariance_
        constraint(ctx, S, raw, norm, p)
    return h


def instances(tier):
    out = []
    for c in (False, True):
        t = tag(c)
        out.append(Instance("default-" + t, default(c, 1, 2),
                            bounds="p=1,N=2"))
        for n in NORMS:
            widened(out, "fixed-point-%s-%s" % (t, n),
                    lambda N, p: fixed(n, c, p, N, 1),
                    ((130, 2), (12, 6)) if n != "determinant" else
                    ((130, 2), (12, 3)), free=(-1,))
            for p in (3, 5, 8, 12, 24, 40):
                for m, free in (("fixed-point", 2), ("natural gradient", 1)):
                    if m[0] == "n" and p > (8 if c else 12):
                        continue
                    out.append(Instance(
                        "high-%s-%s-%s-%d" % (t, m.split()[0], n, p),
                        wide(high(n, c, p, m, free)),
                        bounds="p=%d, %d arbitrary values" % (p, free)))
            out.append(Instance("fixed-point-%s-%s" % (t, n),
                                fixed(n, c, 2, 2, 1),
                                bounds="p=2,N=2, 1 step"))
            for m in ("fixed-point", "natural gradient"):
                out.append(Instance(
                    "class-%s-%s-%s" % (t, m.split()[0], n),
                    klass(n, c, 2, 2, m), bounds="p=2,N=2"))
            if tier == "thorough":
                out.append(Instance("fixed-point2-%s-%s" % (t, n),
                                    fixed(n, c, 2, 2, 2), core=False,
                                    budget=900, bounds="p=2,N=2, 2 steps"))
    return out
