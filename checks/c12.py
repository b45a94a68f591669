from .common import *

PROPERTY = "C12"
INTEGRAL = False     # samples built from bases; see integers
AGAIN = 8


def mm(*a, **k):
    return struct().estimation_cov_kronecker_MM(*a, **k)


def kind(c):
    return "c" if c else "f"


def vecs(Ms):
    """samples: columns of M_i stacked"""
    return [M.T.reshape(-1) for M in Ms]


def stack(ctx, rows, c):
    X = ctx.zeros((len(rows), rows[0].shape[0]), kind(c))
    for i, r in enumerate(rows):
        X[i] = r
    return X


def integers(a, b, N, steps):
    """integer samples are samples like others"""
    def h(ctx):
        X = ctx.ints("x", (N, a * b), -4, 4)
        for i in range(N):
            ctx.assume((X[i, 0] * X[i, 0] > 0) if ctx.sym
                       else bool(X[i, 0] != 0))
        r = mm(X, a, b, tol=NEVER, iter_max=steps)
        f = mm(X * 1.0, a, b, tol=NEVER, iter_max=steps)
        for u, v, l in zip(r, f, ("A", "B", "error", "count")):
            ctx.equal(u, v, l)
        ctx.true(ctx.kindof(r[0]) == ctx.kindof(r[1]) == "f", "kind")
    return h


def inv(ctx, M):
    return lin_inv(ctx, M)


def lin_inv(ctx, M):
    n = M.shape[0]
    if n == 1:
        r = ctx.zeros((1, 1), "c")
        r[0, 0] = 1 / M[0, 0]
        return r
    d = M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    r = ctx.zeros((2, 2), "c")
    r[0, 0], r[1, 1] = M[1, 1] / d, M[0, 0] / d
    r[0, 1], r[1, 0] = -M[0, 1] / d, -M[1, 0] / d
    return r


def trace(M):
    s = M[0, 0]
    for i in range(1, M.shape[0]):
        s = s + M[i, i]
    return s


def equations(ctx, Ms, a, b, A0, B0, A1, B1):
    """A1 and B1 are the geometric-mean updates of Sun, Babu and Palomar"""
    n = len(Ms)
    iA0, iB0 = inv(ctx, A0), inv(ctx, B0)
    iA1 = inv(ctx, ctx.named(A1))
    MA = ctx.zeros((a, a), "c")
    MB = ctx.zeros((b, b), "c")
    for M in Ms:
        S = M.T @ iB0.conj() @ M.conj()
        MA = MA + S / trace(iA0 @ S)
        MB = MB + (M @ iA1.T @ H(M)) / trace(iA1 @ S)
    ctx.equal(A1 @ iA0 @ A1, MA * fr(ctx, a, n), "update of A")
    ctx.equal(B1 @ iB0 @ B1, MB * fr(ctx, b, n), "update of B")


def pd(ctx, M, label, det):
    hermitian(ctx, M, label + " is Hermitian")
    if not det:
        return
    for i in range(M.shape[0]):
        ctx.positive(M[i, i].real, label + " has a positive diagonal")
    if M.shape[0] == 2:
        ctx.positive((M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]).real,
                     label + " has a positive determinant")


def family(ctx, a, b, N, c, how):
    """sample matrices (b x a)"""
    if how == "any":
        return [ctx.data("m%d" % i, (b, a), c) for i in range(N)]
    if how == "wide":
        ctx.wide = ("flat", (0,))
        X = ctx.data("m", (N, b, a), c)
        ctx.wide = None
        return [X[i] for i in range(N)]
    if how == "diag":
        out = []
        for i in range(N):
            M = ctx.zeros((b, a), kind(c))
            d = ctx.data("m%d" % i, (min(a, b),), c)
            for j in range(min(a, b)):
                M[j, j] = d[j]
            out.append(M)
        return out
    # U_b D_i U_a^T: every step stays diagonal in the two bases
    Ua = ctx.rot("ua", c, a)
    Ub = ctx.rot("ub", c, b)
    for U in (Ua, Ub):
        ctx.register(U)
        if c:
            ctx.register(U.conj())
    out = []
    for i in range(N):
        D = ctx.zeros((b, a), kind(c))
        if a == b:
            d = ctx.data("m%d" % i, (a,), c)
            for j in range(a):
                D[j, j] = d[j]
        else:
            # one axis of the longer side at a time, the first one twice
            j = max(i - 1, 0) % max(a, b)
            z = ctx.data("m%d" % i, (1,), c)[0]
            D[(j, 0) if b > a else (0, j)] = z
        out.append(Ub @ D @ Ua.T)
    return out


def steps(a, b, N, c, how, k, det=False):
    def h(ctx):
        Ms = family(ctx, a, b, N, c, how)
        for M in Ms:
            ctx.assume(sum((M.reshape(-1)[i].conj() * M.reshape(-1)[i]).real
                           for i in range(a * b)) > 0.05)
        X = stack(ctx, vecs(Ms), c)
        X0 = X.copy()
        if k == 1:
            A0, B0 = ctx.eye(a, "c"), ctx.eye(b, "c")
        else:
            A0, B0, _, _ = mm(X, a, b, tol=NEVER, iter_max=k - 1)
        A1, B1, e, it = mm(X, a, b, tol=NEVER, iter_max=k)
        ctx.equal(X, X0, "data untouched")
        ctx.equal(A1.shape, (a, a), "shape of A")
        ctx.equal(B1.shape, (b, b), "shape of B")
        equations(ctx, Ms, a, b, ctx.named(A0), ctx.named(B0), A1, B1)
        pd(ctx, A1, "A", det)
        pd(ctx, B1, "B", det)
    return h


def moving(counts, a, b, c, ks):
    """samples along pairs of axes, counts[i][j] of them along axis i of the
    rows (B) and j of the columns (A): each step multiplies the eigenvalues
    by the square root of a (b) times the share of the samples, chosen
    rational"""
    def h(ctx):
        Ms = []
        free = 0
        n = sum(map(sum, counts))
        for i in range(b):
            for j in range(a):
                for q in range(counts[i][j]):
                    M = ctx.zeros((b, a), kind(c))
                    if q == 0:
                        z = ctx.data("z%d_%d" % (i, j), (1,), c)[0]
                        ctx.assume((z * z.conj()).real > 0.05)
                        M[i, j] = z
                    else:
                        M[i, j] = ctx.frac(q % 5 + 1, 2)
                    Ms.append(M)
        X = stack(ctx, vecs(Ms), c)

        def ratio(m, d):
            v = int(round((m * d * n) ** .5))
            assert v * v == m * d * n
            return ctx.frac(v, n)
        ra = [ratio(sum(counts[i][j] for i in range(b)), a)
              for j in range(a)]
        rb = [ratio(sum(counts[i]), b) for i in range(b)]
        for k in ks:
            A, B, e, it = mm(X, a, b, tol=NEVER, iter_max=k)
            ctx.equal(A, ctx.diag([r ** k for r in ra], "c"), "A, step %d" % k)
            ctx.equal(B, ctx.diag([r ** k for r in rb], "c"), "B, step %d" % k)
            ctx.equal(it, k, "iteration count")
    return h


def scale_free(a, b, N, c, how):
    """the scale of each sample is irrelevant"""
    def h(ctx):
        Ms = family(ctx, a, b, N, c, how)
        X = stack(ctx, vecs(Ms), c)
        Y = X.copy()
        for i in range(N):
            t = ctx.real("t%d" % i, pos=True)
            if c:
                u = ctx.unit("ph%d" % i)
                t = t * (u + 1j * ctx.root(1 - u * u))
            Y[i] = t * Y[i]
        r = mm(X, a, b, tol=NEVER, iter_max=1)
        s = mm(Y, a, b, tol=NEVER, iter_max=1)
        ctx.equal(s[0], r[0], "A unchanged")
        ctx.equal(s[1], r[1], "B unchanged")
        ctx.equal(s[2], r[2], "error unchanged")
    return h


def fitted(a, b, N, how):
    """the estimator hands over the iteration and the Kronecker product"""
    def h(ctx):
        Ms = family(ctx, a, b, N, True, how)
        X = stack(ctx, vecs(Ms), True)
        A, B, e, it = mm(X, a, b, tol=NEVER, iter_max=1)
        m = struct().KroneckerEllipticalMM(a, b, tol=NEVER, iter_max=1)
        ctx.true(m.fit(X) is m, "fit returns the estimator")
        ctx.equal(m.A_, A, "A_")
        ctx.equal(m.B_, B, "B_")
        C = m.covariance_
        ctx.equal(C.shape, (a * b, a * b), "shape")
        for i in range(a):
            for j in range(a):
                ctx.equal(C[i * b:(i + 1) * b, j * b:(j + 1) * b],
                          A[i, j] * B, "block of the Kronecker product")
        m2 = struct().KroneckerEllipticalMM(1, 1, tol=0.5, iter_max=7)
        m2.set_params(a=a, b=b, tol=NEVER, iter_max=1)
        ctx.equal(m2.fit(X).covariance_, C, "current parameters are used")
    return h


def mismatch():
    def h(ctx):
        X = ctx.data("x", (2, 4), True)
        for a, b in ((1, 2), (3, 1), (4, 4), (2, 3)):
            ctx.true(mm(X, a, b) is None, "incompatible sizes")
    return h


def instances(tier):
    out = []
    for a, b, N, k in ((1, 1, 2, 1), (2, 1, 2, 1), (1, 2, 3, 1), (1, 1, 3, 2)):
        out.append(Instance("integers-%dx%d-%d" % (a, b, k),
                            integers(a, b, N, k), core=False,
                            bounds="%d samples, %d steps" % (N, k)))
    for c in (False, True):
        t = tag(c)
        for a, b in ((2, 2), (2, 1), (1, 2)):
            n = "%s-%dx%d" % (t, a, b)
            N = 1 if a == b else 2
            out.append(Instance(n + "-any", steps(a, b, N, c, "any", 1,
                                              not c and a != b),
                                bounds="N=%d, 1 step" % N))
            M = 2 if a == b else 3
            for k in (1, 2, 3):
                if k == 3 and tier == "quick":
                    continue
                m = 1 if (a, b) == (2, 2) and k > 1 else M
                out.append(Instance("%s-bases-%d" % (n, k),
                                    steps(a, b, m, c, "bases", k,
                                          a != b),
                                    bounds="N=%d, %d steps, aligned samples"
                                    % (m, k)))
                if m != M and tier == "thorough":
                    out.append(Instance(
                        "%s-bases-%d-N2" % (n, k),
                        steps(a, b, M, c, "bases", k), core=False,
                        budget=1000,
                        bounds="N=2, %d steps, aligned samples" % k))
            if tier == "thorough" or not (a == b or c and a > b):
                out.append(Instance(
                    n + "-any-2", steps(a, b, N + (a != b and not c), c, "any", 2),
                    core=not c and a != b, opts=dict(name_terms=1),
                    budget=2000 if tier == "thorough" else 250,
                    bounds="N=%d, 2 steps" % (N + (a != b and not c))))
            if tier == "thorough" and a != b:
                out.append(Instance(
                    n + "-any-3", steps(a, b, N + 1, c, "any", 3), core=False,
                    opts=dict(name_terms=1), budget=2000,
                    bounds="N=%d, 3 steps" % (N + 1)))
            out.append(Instance(n + "-scale", scale_free(
                a, b, M, c, "bases"), bounds="N=%d" % M))
        out.append(Instance(t + "-2x2-diag-2", steps(2, 2, 2, c, "diag", 2),
                            budget=350,
                            bounds="N=2, 2 steps, diagonal samples"))
        out.append(Instance(t + "-1x1", steps(1, 1, 2, c, "any", 2, True),
                            bounds="N=2, 2 steps"))
    for a, b in ((2, 2), (2, 1), (1, 2)):
        out.append(Instance("fit-%dx%d" % (a, b), fitted(
            a, b, 1 if a == b else 2, "bases" if a == b else "any"),
            bounds="1 step"))
    for c in (False, True):
        t = tag(c)
        for a, b in ((2, 1), (1, 2), (2, 2)):
            n = "%s-%dx%d" % (t, a, b)
            for N in (130, 1030):
                if c and a > b or N > 130 and a > 1 and tier == "quick":
                    continue
                out.append(Instance(n + "-wide%d" % N, steps(
                    a, b, N, c, "wide", 1), core=False,
                    bounds="N=%d, one row arbitrary, 1 step" % N))
            if a > b and not c:
                out.append(Instance("%s-long" % n, steps(
                    a, b, 3, c, "wide", 12), core=False,
                    opts=dict(name_terms=1),
                    bounds="N=3, one row arbitrary, 12 steps"))
        out.append(Instance(t + "-1x1-long", steps(1, 1, 2, c, "any", 120),
                            bounds="N=2, 120 steps"))
        for nm, cnt, a, b in (("1x2", [[49], [1]], 1, 2),
                              ("2x1", [[49, 1]], 2, 1),
                              ("2x2", [[48, 1], [1, 0]], 2, 2),
                              ("1x3", [[25], [1], [1]], 1, 3)):
            out.append(Instance("%s-%s-moving" % (t, nm), moving(
                cnt, a, b, c, range(1, 14) if nm[0] == "1" else
                (1, 2, 3, 10, 11)), bounds="samples along axes, up to 13 "
                "steps"))
            if nm in ("1x2", "2x1"):
                out.append(Instance("%s-%s-moving-long" % (t, nm), moving(
                    cnt, a, b, c, (26,)),
                    bounds="samples along axes, 26 steps"))
    out.append(Instance("mismatch", mismatch(), bounds="4 features"))
    return out
