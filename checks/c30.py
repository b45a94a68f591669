from .common import *

PROPERTY = "C30"


def spectral(ctx, p, c, how, positive):
    if ctx.wide:
        return ctx.spectral("w", p, c, how, positive)
    d = [ctx.real("d%d" % i, pos=True) if positive else
         ctx.real("d%d" % i, lo=-1.2, hi=1.2) for i in range(p)]
    V = ctx.eye(p, "c" if c else "f") if how == "diag" or p == 1 else \
        ctx.rot("V", c, p)
    M = ctx.hermitise(V @ ctx.diag(d, "c" if c else "f") @ H(V))
    ctx.register(V)
    return ctx.laid(M, "W"), V, d


def apply(ctx, V, d, c, f):
    return V @ ctx.diag([f(x) for x in d], "c" if c else "f") @ H(V)


FUNCS = dict(sqrtm=np.sqrt, logm=np.log, expm=np.exp,
             invsqrtm=lambda x: 1 / np.sqrt(x))


def action(name, p, c, how, ag):
    """acts on the eigenvalues, keeping the eigenvectors"""
    def h(ctx):
        M, V, d = spectral(ctx, p, c, how, name != "expm")
        M0 = M.copy()
        f = getattr(lin(), name)
        r = f(M, ag) if ag else f(M)
        ctx.equal(r, apply(ctx, V, d, c, FUNCS[name]),
                  "acts on the eigenvalues")
        hermitian(ctx, r, "Hermitian")
        ctx.true(ctx.kindof(r) == ("c" if c else "f"), "kind")
        ctx.true(tuple(r.shape) == (p, p), "shape")
        ctx.equal(M, M0, "input untouched")
    return h


def identities(p, c, how, ag):
    def h(ctx):
        M, V, d = spectral(ctx, p, c, how, True)
        m = lin()
        I = ctx.eye(p, "c" if c else "f")
        s, i = m.sqrtm(M, autograd=ag), m.invsqrtm(M, autograd=ag)
        ctx.equal(s @ s, M, "square of the square root")
        ctx.equal(i @ M @ i, I, "whitening")
        ctx.equal(s @ i, I, "inverse of each other")
        ctx.equal(m.expm(m.logm(M, autograd=ag), autograd=ag), M,
                  "exponential of the logarithm")
        for k in range(p if p <= 5 else 0):
            ctx.positive(s[k, k].real, "positive")
            ctx.positive(i[k, k].real, "positive")
        if p == 2:
            ctx.positive(det2(s).real, "positive definite root")
            ctx.positive(det2(i).real, "positive definite root")
    return h


def inverse_exp(p, c, how, ag):
    def h(ctx):
        M, V, d = spectral(ctx, p, c, how, False)
        m = lin()
        e = m.expm(M, autograd=ag)
        ctx.equal(m.logm(e, autograd=ag), M, "logarithm of the exponential")
        n = m.expm(-M, autograd=ag)
        ctx.equal(e @ n, ctx.eye(p, "c" if c else "f"),
                  "exponential of minus the matrix")
    return h


def power(p, c, how, ag, alpha):
    def h(ctx):
        M, V, d = spectral(ctx, p, c, how, True)
        r = lin().powm(M, alpha, autograd=ag)
        ctx.equal(r, apply(ctx, V, d, c, lambda x: x ** alpha),
                  "power of the eigenvalues")
        hermitian(ctx, r, "Hermitian")
        if alpha == 0:
            ctx.equal(r, ctx.eye(p, "c" if c else "f"), "power zero")
        if alpha == 1:
            ctx.equal(r, M, "power one")
        if alpha == 2:
            ctx.equal(r, M @ M, "power two")
        if alpha == -1:
            ctx.equal(r @ M, ctx.eye(p, "c" if c else "f"), "inverse")
        if alpha == .5:
            ctx.equal(r, lin().sqrtm(M), "square root")
        if alpha == -.5:
            ctx.equal(r, lin().invsqrtm(M), "inverse square root")
    return h


def exponents(p, c, how, ag):
    """any two exponents"""
    def h(ctx):
        M, V, d = spectral(ctx, p, c, how, True)
        a, b = ctx.real("a", lo=-2, hi=2), ctx.real("b", lo=-2, hi=2)
        f = lin().powm
        A_ = f(M, a, autograd=ag)
        ctx.equal(A_, apply(ctx, V, d, c,
                            lambda x: np.exp(a * np.log(x))),
                  "power of the eigenvalues")
        ctx.equal(A_ @ f(M, b, autograd=ag), f(M, a + b, autograd=ag),
                  "exponents add up")
    return h


def negative(p, c, how):
    """integer powers of indefinite matrices"""
    def h(ctx):
        M, V, d = spectral(ctx, p, c, how, False)
        ctx.equal(lin().powm(M, 2), M @ M, "square")
        ctx.equal(lin().powm(M, 3), M @ M @ M, "cube")
    return h


def parts(shape, c, ag):
    def h(ctx):
        A = ctx.data("A", shape, c)
        A0 = A.copy()
        m = lin()
        t = m.multihconj(A, autograd=ag)
        r = m.multiherm(A, autograd=ag)
        ctx.true(tuple(t.shape) == shape[:-2] + (shape[-1], shape[-2]),
                 "shape")
        for i in np.ndindex(*shape):
            j = i[:-2] + (i[-1], i[-2])
            ctx.equal(t[j], A0[i].conjugate(), "conjugate transpose")
            ctx.equal(r[i], fr(ctx, 1, 2) * (A0[i] + A0[j].conjugate()),
                      "Hermitian part")
        ctx.equal(A, A0, "input untouched")
        ctx.equal(m.multiherm(r, autograd=ag), r, "idempotent")
        ctx.equal(m.multihconj(t, autograd=ag), A0, "involution")
        if len(shape) == 2:
            ctx.equal(m.hermitian(A, autograd=ag), r, "Hermitian part")
        s = A0 - r
        ctx.equal(m.multihconj(s, autograd=ag), -s, "rest is skew")
    return h


def rectangular(shape, c, ag):
    def h(ctx):
        A = ctx.data("A", shape, c)
        t = lin().multihconj(A, autograd=ag)
        for i in np.ndindex(*shape):
            ctx.equal(t[i[:-2] + (i[-1], i[-2])], A[i].conjugate(),
                      "conjugate transpose")
    return h


def instances(tier):
    out = []
    T = tier != "quick"
    for c in (False, True):
        for ag in (False, True):
            a = "-autograd" if ag else ""
            for p, how in ((1, "diag"), (2, "diag"), (2, "spec"),
                           (3, "diag")) + (((4, "diag"),) if T else ()) + (
                               ((3, "spec"),) if not c or T else ()):
                nm = "%s-p%d-%s%s" % (tag(c), p, how, a)
                b = "p=%d, %s" % (p, how)
                for f in FUNCS:
                    out.append(Instance("%s-%s" % (f, nm),
                                        action(f, p, c, how, ag), bounds=b))
                if (p, how) == (3, "spec") and c:
                    continue
                out.append(Instance("identities-" + nm,
                                    identities(p, c, how, ag), bounds=b))
                out.append(Instance("logexp-" + nm,
                                    inverse_exp(p, c, how, ag), bounds=b))
                for al in (-2, -1, -.5, 0, .5, 1, 1.5, 2, 3):
                    if p == 3 and how == "spec" and not T:
                        continue
                    out.append(Instance("powm-%s-%s" % (nm, al),
                                        power(p, c, how, ag, al), bounds=b))
                if p < 3 or how == "diag":
                    out.append(Instance("exponents-" + nm,
                                        exponents(p, c, how, ag), bounds=b))
                if not ag:
                    out.append(Instance("indefinite-" + nm,
                                        negative(p, c, how), bounds=b))
            for s in ((1, 1), (2, 2), (3, 3), (1, 2, 2), (2, 2, 2),
                      (3, 2, 2), (2, 3, 3)):
                out.append(Instance(
                    "hermitian-%s-%s%s" % (tag(c), "x".join(map(str, s)), a),
                    parts(s, c, ag), bounds=str(s)))
            for s in ((1, 2), (3, 2), (2, 1, 3), (3, 2, 1)):
                out.append(Instance(
                    "transpose-%s-%s%s" % (tag(c), "x".join(map(str, s)), a),
                    rectangular(s, c, ag), bounds=str(s)))
    for c in (False, True):
        for ag in (False, True):
            a = "-autograd" if ag else ""
            for p in (5, 8):
                nm = "%s-p%d%s" % (tag(c), p, a)
                b = "p=%d, fixed eigenvectors, one eigenvalue arbitrary" % p
                for f in FUNCS:
                    out.append(Instance("%s-wide-%s" % (f, nm), wide(action(
                        f, p, c, "spec", ag)), bounds=b))
                out += [Instance("identities-wide-" + nm, wide(identities(
                            p, c, "spec", ag)), bounds=b),
                        Instance("logexp-wide-" + nm, wide(inverse_exp(
                            p, c, "spec", ag)), bounds=b)]
                for al in (-1, .5, 2):
                    out.append(Instance("powm-wide-%s-%s" % (nm, al), wide(
                        power(p, c, "spec", ag, al)), bounds=b))
            for s in ((12, 12), (40, 2, 2), (2, 12, 12), (130, 1, 1),
                      (7, 3, 3)):
                out.append(Instance(
                    "hermitian-wide-%s-%s%s" % (
                        tag(c), "x".join(map(str, s)), a),
                    wide(parts(s, c, ag)), bounds=str(s)))
            for s in ((40, 3), (1, 130), (40, 3, 2)):
                out.append(Instance(
                    "transpose-wide-%s-%s%s" % (
                        tag(c), "x".join(map(str, s)), a),
                    wide(rectangular(s, c, ag)), bounds=str(s)))
    return out
