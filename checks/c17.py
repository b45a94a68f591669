from .common import *

PROPERTY = "C17"


def symmetric(n, cplx, conj, tol):
    """accepted exactly when entry by entry close to the (conjugate)
    transpose"""
    def h(ctx):
        M = ctx.data("m", (n, n), cplx, lo=-2, hi=2) if not cplx else \
            ctx.cplx("m", (n, n))
        if tol == "given":
            r, a = (ctx.real(x, nonneg=True, lo=0, hi=1) for x in ("rt",
                                                                   "at"))
            kw = dict(rtol=r, atol=a)
        elif tol == "zero":
            r = a = 0
            kw = dict(rtol=0, atol=0)
        else:
            r, a = 1e-5, 1e-8
            kw = {}
        if ctx.choose("near", (True, False)):
            # second triangle close to the first one
            for i in range(n):
                for j in range(i):
                    e = M[i, j]
                    M[i, j] = (M[j, i].conj() if conj else M[j, i]) + \
                        e * (1 if tol == "given" else 0)
                if cplx and conj and tol != "given":
                    M[i, i] = M[i, i].real + 0j
        f = maps().check_Hermitian if conj else maps().check_Symmetric
        M0 = M.copy()
        got = bool(f(M, **kw))
        ctx.equal(M, M0, "input untouched")
        for i in range(n):
            for j in range(n):
                o = M[j, i].conj() if conj and cplx else M[j, i]
                if tol == "zero" or i == j and not (conj and cplx):
                    if got:
                        ctx.equal(M[i, j], o, "accepted: equal entries")
                    continue
                d = abs(M[i, j] - o)
                if got:
                    ctx.true(d <= a + r * abs(o),
                             "accepted: entries within the tolerance")
        if not got:
            bad = False
            for i in range(n):
                for j in range(n):
                    o = M[j, i].conj() if conj and cplx else M[j, i]
                    if not bad:
                        bad = not bool(abs(M[i, j] - o) <= a + r * abs(o))
            ctx.true(bad, "refused: some entry beyond the tolerance")
    return h


def slip(n, cplx, conj):
    """one entry out of tune is enough, wherever it is"""
    def h(ctx):
        M = ctx.herm("m", n, cplx) if conj else ctx.cplx("m", (n, n))
        if not conj:
            for i in range(n):
                for j in range(i):
                    M[i, j] = M[j, i]
        f = maps().check_Hermitian if conj else maps().check_Symmetric
        ctx.true(bool(f(M)), "accepted")
        if n > 1:
            i, j = ctx.choose("at", [(i, j) for i in range(n)
                                     for j in range(n) if i != j] if n < 4
                              else [(0, n - 1), (n - 1, 0), (n - 1, n - 2),
                                    (n // 2, n // 2 + 1)])
            e = ctx.real("e", lo=.5, hi=2)
            ctx.assume(e >= 0.5)
            part = ctx.choose("part", (1, 1j)) if cplx else 1
            for z in (M[i, j].real, M[i, j].imag)[:2 if cplx else 1]:
                ctx.assume(z <= 10)
                ctx.assume(-10 <= z)
            M[i, j] = M[i, j] + e * part
            ctx.true(not bool(f(M)), "refused")
        if cplx and conj:
            i = ctx.choose("diag", list(range(n)) if n < 4 else [0, n - 1])
            K = ctx.herm("k", n, True)
            e = ctx.real("d", lo=.5, hi=2)
            ctx.assume(e >= 0.5)
            ctx.assume(K[i, i].real <= 10)
            ctx.assume(-10 <= K[i, i].real)
            ctx.assume(e <= 10)
            K[i, i] = K[i, i] + 1j * e
            ctx.true(not bool(f(K)), "refused")
    return h


def square(shape, cplx):
    def h(ctx):
        M = ctx.data("m", shape, cplx)
        ctx.true(bool(maps().iscovariance(M)) == (
            len(shape) == 2 and shape[0] == shape[1]),
            "square matrices and nothing else")
    return h


def instances(tier):
    out = []
    for conj in (True, False):
        w = "hermitian" if conj else "symmetric"
        for c in (False, True):
            for n in (1, 2, 3):
                for tol in ("zero", "given", "default"):
                    if n == 3 and (tol != "zero" or c):
                        continue
                    if tol != "zero" and c and n == 2:
                        continue
                    out.append(Instance(
                        "%s-%s-n%d-%s" % (w, tag(c), n, tol),
                        symmetric(n, c, conj, tol), bounds="n=%d" % n))
                if not c and not conj:
                    continue
                out.append(Instance("slip-%s-%s-n%d" % (w, tag(c), n),
                                    slip(n, c, conj), bounds="n=%d" % n))
    for s in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 2), (2,), (4,),
              (1, 1, 1), (2, 2, 2), (1, 2, 2), (2, 2, 1, 1)):
        for c in (False, True):
            out.append(Instance("square-%s-%s" % ("x".join(map(str, s)),
                                                  tag(c)), square(s, c),
                                bounds=str(s)))
    for n in (12, 19):
        for conj, c in ((True, False), (True, True), (False, True)):
            out.append(Instance(
                "slip-wide-%s-%s-n%d" % ("hermitian" if conj else
                                         "symmetric", tag(c), n),
                wide(slip(n, c, conj)), maxpaths=200,
                bounds="n=%d, first and last row arbitrary" % n))
    for s in ((40, 40), (40, 41), (12, 12, 12)):
        for c in (False, True):
            out.append(Instance("square-%s-%s" % ("x".join(map(str, s)),
                                                  tag(c)), square(s, c),
                                bounds=str(s)))
    return out
