from .common import *
from .c06 import constraint
from .c22 import shape_matrix

PROPERTY = "C35"
ASSUMPTIONS = [
    "autograd's tracer and derivative rules are run, not modelled, on the "
    "symbolic arrays; pymanopt's optimiser is replaced by an arbitrary "
    "answer"]


def capture(fn, answer, *a, **k):
    """what the optimiser is given, and what comes back"""
    seen = []

    def reply(problem, x):
        seen.append((problem, x))
        return answer
    with solver_stub(reply):
        out = fn(*a, **k)
    return out, seen


def real_form(ctx, M):
    """[[Re, -Im], [Im, Re]] / 2"""
    n = M.shape[0]
    r = ctx.zeros((2 * n, 2 * n))
    h = fr(ctx, 1, 2)
    for i in range(n):
        for j in range(n):
            r[i, j] = r[n + i, n + j] = M[i, j].real * h
            r[n + i, j] = M[i, j].imag * h
            r[i, n + j] = -M[i, j].imag * h
    return r


def tyler(ctx, X, iQ, ld):
    N, p = X.shape
    r = N * ld
    for i in range(N):
        r = r + p * ln(ctx, quad(X[i], iQ))
    return r


def exact(ctx, X, iQ):
    """Euclidean gradient of Tyler's cost"""
    N, p = X.shape
    G = N * iQ
    for i in range(N):
        y = iQ @ X[i].reshape(p, 1)
        G = G - (p / quad(X[i], iQ)) * (y @ H(y))
    return G


def point(ctx, name, p, c, how):
    """Q, its inverse and log-determinant; "scalar": s^2 I"""
    if how == "scalar":
        s = ctx.real(name + "_s", pos=True)
        k = "c" if c else "f"
        return (s * s) * ctx.eye(p, k), (1 / (s * s)) * ctx.eye(p, k), \
            2 * p * ln(ctx, s)
    Q, V, r = ctx.spd(name, p, c, how, ret=True)
    iQ = V @ ctx.diag([1 / (x * x) for x in r], "c" if c else "f") @ H(V)
    ld = 0
    for x in r:
        ld = ld + 2 * ln(ctx, x)
    return Q, iQ, ld


def nonzero(ctx, X):
    for i in range(X.shape[0]):
        m = 0
        for j in range(X.shape[1]):
            m = m + (X[i, j] * X[i, j].conj()).real
        ctx.assume(m > 0)


def cost_real(N, p, how, how2):
    """values at two points differ as Tyler's cost of the data does"""
    def h(ctx):
        X = ctx.data("X", (N, p), False)
        nonzero(ctx, X)
        X0 = X.copy()
        A, iA, la = point(ctx, "A", p, False, how)
        B, iB, lb = point(ctx, "B", p, False, how2)
        f = est().tyler_shape_matrix_naturalgradient
        out, seen = capture(f, A, X, normalisation="None")
        ctx.true(len(seen) == 1, "one optimisation")
        pb, x = seen[0]
        ctx.true(x is None, "no start requested")
        ctx.equal(pb.cost(A) - pb.cost(B),
                  tyler(ctx, X0, iA, la) - tyler(ctx, X0, iB, lb),
                  "cost up to a constant")
        ctx.equal(out[0], A, "the answer is returned")
        ctx.equal(out[1], -pb.cost(A), "value of the criterion")
        ctx.true(out[2] is None, "no iteration count")
        ctx.equal(X, X0, "data untouched")
    return h


def gradient_real(N, p, how):
    def h(ctx):
        X = ctx.data("X", (N, p), False)
        nonzero(ctx, X)
        A, iA, la = point(ctx, "A", p, False, how)
        A0 = A.copy()
        f = est().tyler_shape_matrix_naturalgradient
        out, seen = capture(f, A, X)
        pb, _ = seen[0]
        G = pb.egrad(A)
        want = exact(ctx, X, iA)
        ctx.equal(G + G.T, 2 * want, "Euclidean gradient")
        ctx.equal(A, A0, "point untouched")
        # what the optimiser makes of it with the problem's manifold
        r = pb.grad(A)
        ctx.equal(r, A @ want @ A, "Riemannian gradient")
    return h


def again(N, p, how):
    """the problem keeps no state: any order of evaluations"""
    def h(ctx):
        X = ctx.data("X", (N, p), False)
        nonzero(ctx, X)
        A, iA, la = point(ctx, "A", p, False, how)
        B, iB, lb = point(ctx, "B", p, False, "diag")
        f = est().tyler_shape_matrix_naturalgradient
        (_, _, _), seen = capture(f, A, X)
        pb, _ = seen[0]
        a = pb.cost(A)
        ga = pb.egrad(A)
        b = pb.cost(B)
        gb = pb.egrad(B)
        ctx.equal(pb.cost(A), a, "cost again")
        G = pb.egrad(A)
        ctx.equal(G, ga, "gradient again")
        ctx.equal(gb + gb.T, 2 * exact(ctx, X, iB), "gradient elsewhere")
        Y = X[::-1]
        (_, _, _), seen2 = capture(f, A, Y)
        ctx.equal(pb.cost(A), a, "cost after another problem")
        ctx.equal(seen2[0][0].cost(A), a, "order of the samples")
    return h


def start(N, p, cplx, norm, how):
    def h(ctx):
        X = ctx.data("X", (N, p), cplx)
        nonzero(ctx, X)
        S = ctx.spd("S", p, cplx, how)
        W = ctx.spd("W", p, cplx, "diag" if cplx and p > 1 else how)
        S0, W0 = S.copy(), W.copy()
        f = est().complex_tyler_shape_matrix_naturalgradient if cplx else \
            est().tyler_shape_matrix_naturalgradient
        ans = real_form(ctx, W) if cplx else W
        ans0 = ans.copy()
        out, seen = capture(f, ans, X, init=S, normalisation=norm)
        pb, x = seen[0]
        ctx.equal(x, real_form(ctx, S0) if cplx else S0, "start")
        constraint(ctx, out[0], W0, norm, p)
        ctx.equal(out[1], -pb.cost(ans0), "value of the criterion")
        ctx.true(out[2] is None, "no iteration count")
        ctx.equal(S, S0, "start untouched")
        ctx.equal(ans, ans0, "answer untouched")
        n = 2 * p if cplx else p
        ctx.true(int(pb.manifold.dim) == n * (n + 1) // 2,
                 "dimension of the search space")
        out, seen = capture(f, ans, X, normalisation=norm)
        ctx.true(seen[0][1] is None, "no start requested")
        constraint(ctx, out[0], W0, norm, p)
    return h


def cost_complex(N, p, how):
    """at the real form of a covariance: four times the complex cost, up to
    a constant"""
    def h(ctx):
        X = ctx.data("X", (N, p), True)
        nonzero(ctx, X)
        X0 = X.copy()
        A, iA, la = point(ctx, "A", p, True, how)
        B, iB, lb = point(ctx, "B", p, True, "diag")
        f = est().complex_tyler_shape_matrix_naturalgradient
        RA, RB = real_form(ctx, A), real_form(ctx, B)
        out, seen = capture(f, RA, X)
        pb, x = seen[0]
        ctx.equal(pb.cost(RA) - pb.cost(RB),
                  4 * (tyler(ctx, X0, iA, la) - tyler(ctx, X0, iB, lb)),
                  "cost up to a constant")
        ctx.equal(out[0], A, "the answer is mapped back")
        ctx.true(ctx.kindof(out[0]) == "c", "complex answer")
        ctx.equal(X, X0, "data untouched")
    return h


def rotation(N, p):
    """multiplication by i leaves the problem as it is at every real
    positive definite point, so that its minimum is a real form"""
    def h(ctx):
        X = ctx.data("X", (N, p), True)
        nonzero(ctx, X)
        n = 2 * p
        Q = entries(ctx, "Q", n, False) if n == 2 else \
            ctx.spd("Q", n, False, "diag")
        f = est().complex_tyler_shape_matrix_naturalgradient
        out, seen = capture(f, real_form(ctx, ctx.eye(p, "c")), X)
        pb, _ = seen[0]
        J = ctx.zeros((n, n))
        for i in range(p):
            J[i, p + i] = -1 + 0 * J[0, 0]
            J[p + i, i] = 1 + 0 * J[0, 0]
        ctx.equal(pb.cost(J @ Q @ J.T), pb.cost(Q), "multiplication by i")
    return h


def gradient_complex(N, p, how):
    """gradient at the real form, along real forms"""
    def h(ctx):
        X = ctx.data("X", (N, p), True)
        nonzero(ctx, X)
        A, iA, la = point(ctx, "A", p, True, how)
        RA = real_form(ctx, A)
        f = est().complex_tyler_shape_matrix_naturalgradient
        out, seen = capture(f, RA, X)
        pb, _ = seen[0]
        G = pb.egrad(RA)
        # the gradient is itself the real form of the complex one
        want = real_form(ctx, exact(ctx, X, iA))
        ctx.equal(G + G.T, 16 * want, "Euclidean gradient")
    return h


def klass(N, p, cplx, norm):
    """the estimators hand their parameters over"""
    def h(ctx):
        X = ctx.data("X", (N, p), cplx)
        nonzero(ctx, X)
        S = ctx.spd("S", p, cplx, "diag")
        W = ctx.spd("W", p, cplx, "diag")
        A, iA, la = point(ctx, "A", p, cplx, "diag")
        ans = real_form(ctx, W) if cplx else W
        cl = est().ComplexTylerShapeMatrix if cplx else est().TylerShapeMatrix
        m = cl(method="natural gradient", normalisation=norm)
        _, seen = capture(lambda: m.fit(X, init=S), ans)
        ctx.true(len(seen) == 1, "one optimisation")
        pb, x = seen[0]
        ctx.equal(x, real_form(ctx, S) if cplx else S, "start")
        constraint(ctx, m.covariance_, W, norm, p)
        P = real_form(ctx, A) if cplx else A
        U, iU, lu = point(ctx, "U", p, cplx, "diag")
        PU = real_form(ctx, U) if cplx else U
        ctx.equal(pb.cost(P) - pb.cost(PU), (4 if cplx else 1) * (
            tyler(ctx, X, iA, la) - tyler(ctx, X, iU, lu)),
            "cost up to a constant")
    return h


def instances(tier):
    out = []
    T = tier != "quick"
    for p, hs in ((1, ("diag",)), (2, ("diag", "spec", "scalar")),
                  (3, ("diag", "scalar"))) + \
            (((4, ("diag", "scalar")),) if T else ()):
        for how in hs:
            for N in (1, 2, 3) + ((4,) if T else ()):
                nm = "N%d-p%d-%s" % (N, p, how)
                b = "N=%d, p=%d, %s points" % (N, p, how)
                out.append(Instance("cost-" + nm, cost_real(
                    N, p, how, "diag"), bounds=b))
                out.append(Instance("gradient-" + nm, gradient_real(
                    N, p, how), bounds=b))
                if N < 3 and p < 3:
                    out.append(Instance("again-" + nm, again(N, p, how),
                                        bounds=b))
    for norm in ("None", "trace", "determinant", "element"):
        for c in (False, True):
            for p, how in ((1, "diag"), (2, "diag")) + \
                    (((2, "spec"),) if not c else ()):
                for N in (1, 2, 3):
                    nm = "%s-%s-N%d-p%d-%s" % (norm, tag(c), N, p, how)
                    b = "N=%d, p=%d, %s points" % (N, p, how)
                    out.append(Instance("start-" + nm, start(
                        N, p, c, norm, how), bounds=b))
                    if N == 2 and how == "diag":
                        out.append(Instance("class-" + nm, klass(
                            N, p, c, norm), bounds=b))
    for p, hs in ((1, ("diag",)), (2, ("diag", "scalar", "spec")),
                  (3, ("diag",))):
        for how in hs:
            for N in (1, 2) + ((3,) if T else ()):
                if how == "spec" and N > 1 and not T:
                    continue
                nm = "N%d-p%d-%s" % (N, p, how)
                b = "N=%d, p=%d, %s points" % (N, p, how)
                out.append(Instance("complex-cost-" + nm, cost_complex(
                    N, p, how), bounds=b))
                out.append(Instance("complex-gradient-" + nm,
                                    gradient_complex(N, p, how), bounds=b))
    for p in (1, 2):
        for N in (1, 2):
            out.append(Instance("rotation-N%d-p%d" % (N, p), rotation(N, p),
                                bounds="N=%d, p=%d" % (N, p)))
    for N, p in SIZES:
        nm, b = "%dx%d" % (N, p), "N=%d, p=%d, first and last row arbitrary" % (
            N, p)
        k = [("cost", cost_real(N, p, "scalar", "scalar")),
             ("gradient", gradient_real(N, p, "scalar")),
             ("complex-cost", cost_complex(N, p, "scalar")),
             ("complex-gradient", gradient_complex(N, p, "scalar")),
             ("start", start(N, p, False, "trace", "diag")),
             ("complex-start", start(N, p, True, "trace", "diag")),
             ("class", klass(N, p, False, "trace"))]
        for w, fn in k:
            out.append(Instance("%s-wide-%s" % (w, nm), wide(fn), bounds=b))
    return out
