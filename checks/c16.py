from .common import *

PROPERTY = "C16"


def block(ctx, M):
    """half of [[Re, -Im], [Im, Re]]"""
    n = M.shape[0]
    h = fr(ctx, 1, 2)
    R = ctx.zeros((2 * n, 2 * n), "f")
    for i in range(n):
        for j in range(n):
            R[i, j] = R[i + n, j + n] = h * M[i, j].real
            R[i + n, j] = h * M[i, j].imag
            R[i, j + n] = -h * M[i, j].imag
    return R


def single(n, kind):
    def h(ctx):
        M = ctx.herm("m", n, True) if kind == "hermitian" else \
            ctx.cplx("m", (n, n))
        M0 = M.copy()
        R = maps().covariancetoreal(M)
        ctx.equal(R, block(ctx, M0), "real form")
        ctx.true(ctx.kindof(R) == "f", "real form is real")
        if kind == "hermitian":
            ctx.equal(R, R.T, "symmetric")
        ctx.equal(M, M0, "input untouched")
        R0 = R.copy()
        B = maps().covariancetocomplex(R)
        ctx.equal(B, M0, "back to the complex matrix")
        ctx.true(ctx.kindof(B) == "c", "kind")
        ctx.equal(R, R0, "input untouched")
        B[...] = 0
        ctx.equal(R, R0, "result is a new array")
        R[...] = 0
        ctx.equal(M, M0, "result is a new array")
    return h


def quadratic(n):
    """quadratic forms: x^H M x is twice that of the stacked forms, and
    positive definiteness carries over"""
    def h(ctx):
        M = ctx.herm("m", n, True)
        x = ctx.cplx("x", (n,))
        R = maps().covariancetoreal(M)
        r = maps().arraytoreal(x)
        q = quad(r, R)
        ctx.equal(quad(x, M), 2 * q, "quadratic form")
    return h


def products(n):
    """embedding of products: twice R1 R2 is the form of M1 M2"""
    def h(ctx):
        A, B = ctx.cplx("a", (n, n)), ctx.cplx("b", (n, n))
        f = maps().covariancetoreal
        ctx.equal(f(A @ B), 2 * f(A) @ f(B), "multiplicative up to 2")
        ctx.equal(f(H(A)), f(A).T, "adjoint becomes transpose")
        ctx.equal(f(A + B), f(A) + f(B), "additive")
    return h


def moments(N, p):
    """covariance of the stacked real data of a circular sample: averaging
    over the rotation by i"""
    def h(ctx):
        X = ctx.cplx("x", (N, p))
        M = mean_outer(X, [1] * N, fr(ctx, 1, N))
        a, b = maps().arraytoreal(X), maps().arraytoreal(1j * X)
        S = mean_outer(a, [1] * N, fr(ctx, 1, 2 * N)) + \
            mean_outer(b, [1] * N, fr(ctx, 1, 2 * N))
        ctx.equal(maps().covariancetoreal(M), S, "second moment")
    return h


def stack(k, n):
    def h(ctx):
        M = ctx.cplx("m", (k, n, n))
        M0 = M.copy()
        R = maps().covariancestoreal(M)
        ctx.true(R.shape == (k, 2 * n, 2 * n), "shape")
        ctx.true(ctx.kindof(R) == "f", "real form is real")
        for i in range(k):
            ctx.equal(R[i], block(ctx, M0[i]), "real form of each matrix")
        ctx.equal(M, M0, "input untouched")
        R0 = R.copy()
        B = maps().covariancestocomplex(R)
        ctx.equal(B, M0, "back to the complex matrices")
        ctx.true(ctx.kindof(B) == "c", "kind")
        ctx.equal(R, R0, "input untouched")
    return h


def from_real(n):
    """real matrices of the block form"""
    def h(ctx):
        M = ctx.cplx("m", (n, n))
        R = block(ctx, M)
        Z = maps().covariancetocomplex(R)
        ctx.equal(Z, M, "complex form")
        ctx.equal(maps().covariancetoreal(Z), R, "back to the real matrix")
        S = ctx.zeros((2, 2 * n, 2 * n), "f")
        S[0], S[1] = R, 2 * R
        Z = maps().covariancestocomplex(S)
        ctx.equal(Z[0], M, "complex form")
        ctx.equal(Z[1], 2 * M, "complex form")
    return h


def kept(n):
    def h(ctx):
        R, M = ctx.reals("r", (n, n)), ctx.cplx("m", (n, n))
        Rs, Ms = ctx.reals("rs", (2, n, n)), ctx.cplx("ms", (2, n, n))
        m = maps()
        ctx.equal(m.covariancetoreal(R), R, "real matrices are kept")
        ctx.equal(m.covariancetocomplex(M), M, "complex matrices are kept")
        ctx.equal(m.covariancestoreal(Rs), Rs, "real matrices are kept")
        ctx.equal(m.covariancestocomplex(Ms), Ms, "complex matrices are kept")
    return h


def refused(ctx):
    m = maps()
    E = AttributeError
    r33, r23, r24 = (ctx.reals("r%d" % i, s) for i, s in enumerate(
        ((3, 3), (2, 3), (2, 4))))
    c23, c2 = ctx.cplx("c23", (2, 3)), ctx.cplx("c2", (2,))
    ctx.raises(E, lambda: m.covariancetocomplex(r33), "odd size")
    ctx.raises(E, lambda: m.covariancetocomplex(r23), "not square")
    ctx.raises(E, lambda: m.covariancetocomplex(r24), "not square")
    ctx.raises(E, lambda: m.covariancetocomplex(r24[0]), "not a matrix")
    ctx.raises(E, lambda: m.covariancetoreal(c23), "not square")
    ctx.raises(E, lambda: m.covariancetoreal(c2), "not a matrix")
    ctx.raises(E, lambda: m.covariancestoreal(c23), "not a stack")
    ctx.raises(E, lambda: m.covariancestocomplex(r24), "not a stack")
    s = ctx.reals("s", (2, 3, 3))
    ctx.raises(E, lambda: m.covariancestocomplex(s), "odd size")
    t = ctx.cplx("t", (2, 2, 3))
    ctx.raises(E, lambda: m.covariancestoreal(t), "not square")


def instances(tier):
    out = [Instance("refused", refused, bounds="sizes 2-4")]
    ns = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 6)
    for n in ns:
        b = "n=%d" % n
        out += [Instance("hermitian-n%d" % n, single(n, "hermitian"),
                         bounds=b),
                Instance("any-n%d" % n, single(n, "any"), bounds=b),
                Instance("quadratic-n%d" % n, quadratic(n), bounds=b),
                Instance("products-n%d" % n, products(n), bounds=b),
                Instance("real-n%d" % n, from_real(n), bounds=b),
                Instance("kept-n%d" % n, kept(n), bounds=b)]
        for k in (1, 2, 3):
            out.append(Instance("stack%d-n%d" % (k, n), stack(k, n),
                                bounds="%d matrices, n=%d" % (k, n)))
        out.append(Instance("moments-n%d" % n, moments(2, n),
                            bounds="N=2, p=%d" % n))
    for n in (12, 40):
        b = "n=%d, first and last row arbitrary" % n
        out += [Instance("wide-hermitian-n%d" % n,
                         wide(single(n, "hermitian")), bounds=b),
                Instance("wide-any-n%d" % n, wide(single(n, "any")),
                         bounds=b),
                Instance("wide-real-n%d" % n, wide(from_real(n)), bounds=b),
                ]
    out.append(Instance("wide-kept-n12", wide(kept(12)),
                        bounds="n=12, first and last row arbitrary"))
    for n in (6, 12):
        b = "n=%d, first and last row arbitrary" % n
        out += [Instance("wide-quadratic-n%d" % n, wide(quadratic(n)),
                         bounds=b),
                Instance("wide-products-n%d" % n, wide(products(n)),
                         bounds=b)]
    for k, n in ((130, 2), (7, 12), (1030, 1)):
        out.append(Instance("wide-stack%d-n%d" % (k, n), wide(stack(k, n)),
                            bounds="%d matrices, n=%d, two rows arbitrary"
                            % (k, n)))
    for N, n in ((130, 2), (12, 6)):
        out.append(Instance("wide-moments-N%d-p%d" % (N, n),
                            wide(moments(N, n)),
                            bounds="N=%d, p=%d, two rows arbitrary" % (N, n)))
    return out
