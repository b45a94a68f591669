from .common import *

PROPERTY = "C31"


def full(n, c):
    def h(ctx):
        m = lin()
        A = ctx.data("A", (n, n), c)
        A0 = A.copy()
        v = m.vec(A)
        ctx.true(tuple(v.shape) == (n * n,), "length")
        for i in range(n):
            for j in range(n):
                ctx.equal(v[j * n + i], A0[i, j], "column by column")
        ctx.equal(m.unvec(v), A0, "back to the matrix")
        ctx.equal(A, A0, "input untouched")
        w = ctx.data("w", (n * n,), c)
        B = m.unvec(w)
        ctx.true(tuple(B.shape) == (n, n), "shape")
        for i in range(n):
            for j in range(n):
                ctx.equal(B[i, j], w[j * n + i], "column by column")
        ctx.equal(m.vec(B), w, "back to the vector")
        ctx.true(ctx.kindof(v) == ctx.kindof(B) == ctx.kindof(A),
                 "kind")
    return h


def rectangular(n, k, c):
    def h(ctx):
        A = ctx.data("A", (n, k), c)
        v = lin().vec(A)
        ctx.true(tuple(v.shape) == (n * k,), "length")
        for i in range(n):
            for j in range(k):
                ctx.equal(v[j * n + i], A[i, j], "column by column")
    return h


def half(n, c):
    def h(ctx):
        m = lin()
        A = ctx.herm("A", n, c)
        A0 = A.copy()
        v = m.vech(A)
        q = 0
        for j in range(n):
            for i in range(j, n):
                ctx.equal(v[q], A0[i, j], "lower triangle by columns")
                q += 1
        ctx.true(tuple(v.shape) == (q,), "length")
        ctx.equal(m.unvech(v), A0, "back to the matrix")
        ctx.equal(A, A0, "input untouched")
        ctx.true(ctx.kindof(v) == ("c" if c else "f"), "kind")
    return h


def half_back(n, c):
    def h(ctx):
        m = lin()
        k = n * (n + 1) // 2
        v = ctx.data("v", (k,), c)
        if c:
            # the diagonal of a Hermitian matrix is real
            q = 0
            for j in range(n):
                v[q] = v[q].real + 0j
                q += n - j
        v0 = v.copy()
        M = m.unvech(v)
        ctx.true(tuple(M.shape) == (n, n), "shape")
        hermitian(ctx, M, "Hermitian")
        q = 0
        for j in range(n):
            for i in range(j, n):
                ctx.equal(M[i, j], v0[q], "lower triangle by columns")
                q += 1
        ctx.equal(m.vech(M), v0, "back to the vector")
        ctx.equal(v, v0, "input untouched")
        ctx.true(ctx.kindof(M) in ("c" if c else "fi" if ctx.integral
                                   else "f"), "kind")
    return h


def triangle(n, c):
    """only the lower triangle is read"""
    def h(ctx):
        A = ctx.data("A", (n, n), c)
        v = lin().vech(A)
        q = 0
        for j in range(n):
            for i in range(j, n):
                ctx.equal(v[q], A[i, j], "lower triangle by columns")
                q += 1
        ctx.true(tuple(v.shape) == (q,), "length")
    return h


def linear(n, c):
    def h(ctx):
        m = lin()
        A, B = ctx.herm("A", n, c), ctx.herm("B", n, c)
        t = ctx.real("t")
        ctx.equal(m.vech(A + t * B), m.vech(A) + t * m.vech(B), "linear")
        ctx.equal(m.vec(A + t * B), m.vec(A) + t * m.vec(B), "linear")
        a, b = m.vec(A), m.vec(B)
        s = 0
        for i in range(n):
            for j in range(n):
                s = s + A[i, j].conjugate() * B[i, j]
        ctx.equal((a.conj() * b).sum(), s, "inner products kept")
    return h


def refused(k):
    def h(ctx):
        v = ctx.reals("v", (k,))
        ctx.raises(AssertionError, lambda: lin().unvec(v),
                   "not the length of a square matrix")
    return h


def integers(n):
    def h(ctx):
        m = lin()
        v = ctx.ints("v", (n * n,))
        ctx.equal(m.vec(m.unvec(v)), v, "integers")
        w = ctx.ints("w", (n * (n + 1) // 2,))
        M = m.unvech(w)
        ctx.equal(m.vech(M), w, "integers")
        ctx.equal(M, M.T, "symmetric")
    return h


def toeplitz(p, c, dtype):
    def h(ctx):
        rho = ctx.real("rho", lo=-.9, hi=.9)
        if c:
            rho = rho + 1j * ctx.real("rhoi", lo=-.9, hi=.9)
        f = lin().ToeplitzMatrix
        T = f(rho, p) if dtype is None else f(rho, p, dtype=dtype)
        ctx.true(tuple(T.shape) == (p, p), "shape")
        kd = "f" if dtype is float else "c"
        ctx.true(ctx.kindof(T) == kd, "data type")
        for i in range(p):
            for j in range(p):
                w = 1
                for _ in range(abs(i - j)):
                    w = w * (rho if i > j else
                             rho.conjugate() if c else rho)
                ctx.equal(T[i, j], w * fr(ctx, 1, 1), "entry rho^|i-j|")
        hermitian(ctx, T, "Hermitian")
        r2 = (rho * rho.conjugate()).real if c else rho * rho
        ctx.assume(r2 < 1)
        if p <= 3:
            d = T[0, 0] if p == 1 else det2(T) if p == 2 else None
            if d is None:
                from .geometry import det3
                d = det3(T)
            ctx.positive(d.real, "positive definite for |rho| < 1")
    return h


def rounded(p, a, b):
    """integer data type: the powers are rounded, not the coefficient"""
    def h(ctx):
        T = lin().ToeplitzMatrix(ctx.frac(a, b), p, dtype=int)
        ctx.true(tuple(T.shape) == (p, p), "shape")
        for i in range(p):
            for j in range(p):
                ctx.equal(T[i, j], int(a ** abs(i - j) / b ** abs(i - j)),
                          "entry rho^|i-j| without its fraction")
    return h


def instances(tier):
    out = []
    T = tier != "quick"
    ns = (1, 2, 3, 4, 5) if not T else (1, 2, 3, 4, 5, 6, 7, 8)
    for c in (False, True):
        for n in ns:
            for nm, f in (("full", full), ("half", half),
                          ("unvech", half_back), ("triangle", triangle),
                          ("linear", linear)):
                out.append(Instance("%s-%s-n%d" % (nm, tag(c), n), f(n, c),
                                    bounds="n=%d" % n))
        for n, k in ((1, 2), (2, 3), (3, 2), (4, 1)):
            out.append(Instance("vec-%s-%dx%d" % (tag(c), n, k),
                                rectangular(n, k, c),
                                bounds="%dx%d" % (n, k)))
        for p in ns:
            for d in ((None, complex) if c else (None, complex, float)):
                out.append(Instance(
                    "toeplitz-%s-p%d-%s" % (tag(c), p, d and d.__name__),
                    toeplitz(p, c, d), bounds="p=%d" % p))
    for p, a, b in ((3, 3, 2), (4, 7, 4), (3, 5, 2)):
        out.append(Instance("toeplitz-rounded-p%d-%d-%d" % (p, a, b),
                            rounded(p, a, b),
                            bounds="rho = %d/%d, integers" % (a, b)))
    for n in ns:
        out.append(Instance("integers-n%d" % n, integers(n),
                            bounds="n=%d" % n))
    for k in (2, 3, 5, 6, 7, 8):
        out.append(Instance("refused-%d" % k, refused(k),
                            bounds="length %d" % k))
    for c in (False, True):
        for n in (12, 40):
            for nm, f in (("full", full), ("half", half),
                          ("unvech", half_back), ("triangle", triangle),
                          ("linear", linear)):
                out.append(Instance("%s-wide-%s-n%d" % (nm, tag(c), n),
                                    wide(f(n, c)), bounds="n=%d, the first "
                                    "and last row or all entries arbitrary"
                                    % n))
        for n, k in ((130, 2), (2, 130)):
            out.append(Instance("vec-wide-%s-%dx%d" % (tag(c), n, k),
                                wide(rectangular(n, k, c)),
                                bounds="%dx%d" % (n, k)))
        for p in (12, 40):
            out.append(Instance("toeplitz-wide-%s-p%d" % (tag(c), p),
                                toeplitz(p, c, complex if c else float),
                                bounds="p=%d" % p))
    return out
