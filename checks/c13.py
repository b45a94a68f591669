from .common import *

PROPERTY = "C13"


def captured(X, a, b, df, ans, init=None, y=None, **kw):
    """a fit whose optimiser answers ans; what it was asked"""
    box = []

    def reply(problem, x):
        box.append((problem, x))
        return ans
    with solver_stub(reply):
        m = struct().KroneckerStudent(a, b, df, **kw)
        r = m.fit(X, **({} if init is None else {"init": init}))
    assert r is m
    problem, x = box[0]
    return m, problem, x, len(box)


def mats(ctx, a, b, how):
    h = dict(left=("entries", "diag"), right=("diag", "entries")).get(
        how, (how, how))
    return (entries(ctx, "A", a, True, h[0]),
            entries(ctx, "B", b, True, h[1]))


def centre(ctx, X, centered):
    if centered:
        return X
    N = X.shape[0]
    return X - X.sum(axis=0) * fr(ctx, 1, N)


def gradient(a, b, N, how, centered=True):
    """gradient handed over = derivative of the cost handed over / N"""
    def h(ctx):
        X = ctx.data("x", (N, a * b), True)
        df = ctx.real("df", pos=True, lo=0.5, hi=6)
        A, B = mats(ctx, a, b, how)
        X0 = X.copy()
        m, problem, x, n = captured(X, a, b, df, (A, B),
                                    assume_centered=centered)
        ctx.equal(X, X0, "data untouched")
        ctx.equal(n, 1, "one optimisation")
        GA, GB = problem.egrad([A, B])
        ctx.equal(GA.shape, (a, a), "shape")
        ctx.equal(GB.shape, (b, b), "shape")
        hw = dict(left=("entries", "diag"), right=("diag", "entries")).get(
            how, (how, how))
        for G, nm, n, w in ((GA, "A", a, hw[0]), (GB, "B", b, hw[1])):
            hermitian(ctx, G, "gradient is Hermitian")
            for inp, E in coords(nm, n, True, w):
                d = ctx.partial(lambda: problem.cost(
                    list(mats(ctx, a, b, how))), inp)
                ctx.equal(real_inner(G, E) * N, d,
                          "derivative of the cost along " + inp)
    return h


def cost(a, b, N, how, centered=True):
    """cost handed over = negative log likelihood"""
    def h(ctx):
        X = ctx.data("x", (N, a * b), True)
        df = ctx.real("df", pos=True, lo=0.5, hi=6)
        A, B = mats(ctx, a, b, how)
        m, problem, x, n = captured(X, a, b, df, (A, B),
                                    assume_centered=centered)
        Y = centre(ctx, X, centered)
        iS = kron(ctx, inv2(ctx, A), inv2(ctx, B))
        ld = b * ln(ctx, det2(A).real) + a * ln(ctx, det2(B).real)
        s = 0
        for i in range(N):
            s = s - logt_complex(ctx, quad(Y[i], iS), ld, a * b, df)
        ctx.equal(problem.cost([A, B]), s, "negative log likelihood")
    return h


def direction(a, b, N, how):
    """the Riemannian gradient the optimiser follows represents the
    derivative of the cost in the metric the optimiser uses"""
    def h(ctx):
        X = ctx.data("x", (N, a * b), True)
        df = ctx.real("df", pos=True, lo=0.5, hi=6)
        if a == 2:
            # unit determinant
            A = ctx.zeros((2, 2), "c")
            r = ctx.real("A_00", pos=True)
            z = ctx.real("A_10") + 1j * ctx.real("A_i10")
            A[0, 0], A[1, 0], A[0, 1] = r, z, z.conjugate()
            A[1, 1] = (1 + (z * z.conjugate()).real) / r
        else:
            A = ctx.eye(1, "c")
        B = entries(ctx, "B", b, True, how)
        m, problem, x, n = captured(X, a, b, df, (A, B))
        g = problem.grad([A, B])
        G = problem.egrad([A, B])
        xa, xb = ctx.herm("u", a, True), ctx.herm("v", b, True)
        M = problem.manifold
        t = M.proj([A, B], [xa, xb])
        ctx.equal(M.inner([A, B], g, t),
                  sum(real_inner_s(G[k], t[k]) for k in (0, 1)),
                  "gradient in the metric of the optimiser")
    return h


def real_inner_s(G, E):
    s = 0
    n = E.shape[0]
    for i in range(n):
        for j in range(n):
            s = s + (G[i, j].conj() * E[i, j]).real
    return s


def glue(a, b, N, centered, given):
    """start handed over, attributes after the fit"""
    def h(ctx):
        p = a * b
        X = ctx.data("x", (N, p), True)
        df = ctx.real("df", pos=True, lo=0.5, hi=6)
        A = entries(ctx, "A", a)
        B = entries(ctx, "B", b)
        init = (entries(ctx, "IA", a), entries(ctx, "IB", b)) if given \
            else None
        m, problem, x, n = captured(X, a, b, df, (A, B), init,
                                    assume_centered=centered)
        ctx.equal(x[0], init[0] if given else ctx.eye(a, "c"), "start of A")
        ctx.equal(x[1], init[1] if given else ctx.eye(b, "c"), "start of B")
        ctx.equal(m.A_, A, "A_")
        ctx.equal(m.B_, B, "B_")
        S = kron(ctx, A, B)
        ctx.equal(m.covariance_, S, "covariance_ is the Kronecker product")
        ctx.equal(m.transform(X), S, "transform")
        loc = ctx.zeros((p,), "c")
        if not centered:
            loc = loc + X.sum(axis=0) * fr(ctx, 1, N)
        ctx.equal(m.location_ + ctx.zeros((p,), "c"), loc, "location_")
        ctx.equal(m.get_precision() @ S, ctx.eye(p, "c"), "precision")
    return h


def instances(tier):
    out = []
    sizes = [(2, 1, 1, "entries"), (1, 2, 1, "entries"), (1, 1, 2, "entries"),
             (2, 2, 1, "diag"), (2, 1, 2, "entries"), (1, 2, 2, "entries"),
             (2, 2, 1, "left"), (2, 2, 1, "right")]
    if tier == "thorough":
        sizes.append((2, 2, 1, "entries"))
    for a, b, N, how in sizes:
        n = "%dx%d-N%d-%s" % (a, b, N, how)
        opt = (a, b) == (2, 2) and how != "diag"
        for f, nm in ((gradient, "gradient"), (cost, "cost")):
            out.append(Instance("%s-%s" % (nm, n), f(a, b, N, how),
                                core=not opt, bounds="N=%d" % N,
                                budget=3000 if how == "entries" and opt
                                else 100))
        if not opt:
            out.append(Instance("direction-" + n, direction(a, b, N, how),
                                bounds="N=%d" % N))
    for a, b in ((2, 1), (1, 2), (2, 2)):
        how = "diag" if a == b else "entries"
        out.append(Instance("gradient-%dx%d-mean" % (a, b),
                            gradient(a, b, 2, how, False), bounds="N=2"))
        out.append(Instance("cost-%dx%d-mean" % (a, b),
                            cost(a, b, 2, how, False), bounds="N=2"))
        for c in (True, False):
            for g in (True, False):
                out.append(Instance("glue-%dx%d-%d%d" % (a, b, c, g),
                                    glue(a, b, 2, c, g), bounds="N=2"))
        out.append(Instance("glue-%dx%d-N3" % (a, b),
                            glue(a, b, 3, False, False), bounds="N=3"))
    for a, b, N in ((2, 1, 130), (1, 2, 130), (1, 1, 1030), (2, 2, 30),
                    (3, 2, 12), (2, 1, 1030)):
        n = "%dx%d-N%d" % (a, b, N)
        bd = "N=%d, first and last sample arbitrary" % N
        hows = ("diag", "entries") if a * b == 2 else ("diag",)
        for how in hows:
            for f, nm in ((gradient, "gradient"), (cost, "cost")):
                if max(a, b) > 2 and nm == "cost" or nm == "gradient" and \
                        how == "entries" and N > 130 and tier == "quick":
                    continue
                for c in (True, False):
                    out.append(Instance(
                        "%s-wide-%s-%s%s" % (nm, n, how, "" if c else "-mean"),
                        wide(f(a, b, N, how, c)), bounds=bd))
        if max(a, b) < 3:
            out.append(Instance("glue-wide-" + n,
                                wide(glue(a, b, N, False, True)), bounds=bd))
    return out
