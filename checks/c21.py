from symx.shim import control_random
from .common import *
from .c20 import law

PROPERTY = "C21"
INTEGRAL = False     # random numbers
ASSUMPTIONS = [
    "numpy's generators return independent draws of the stated laws, "
    "scipy's group samplers orthonormal bases; every draw is an arbitrary "
    "symbol of its support"]


def complexity(c):
    return "complex_" if c else ""


def fun(kind, name, c):
    return getattr(gen(), "%s_%s%s" % (kind, complexity(c), name))


def spd_checks(ctx, S, p, c):
    ctx.true(S.shape == (p, p), "shape")
    ctx.true(ctx.kindof(S) == ("c" if c else "f"), "kind")
    hermitian(ctx, S, "Hermitian")


def covariance(p, c, unit):
    def h(ctx):
        a = ctx.choose("how", (0, 1))
        with control_random(ctx) as R:
            S = (fun("generate", "covariance", c)(p, unit) if a else
                 fun("generate", "covariance", c)(p, unit_det=unit)) \
                if unit or a else fun("generate", "covariance", c)(p)
        spd_checks(ctx, S, p, c)
        d = S[0, 0].real if p == 1 else det2(S).real if p == 2 else None
        if unit and d is not None:
            ctx.equal(d, 1, "unit determinant")
        for i in range(p):
            ctx.positive(S[i, i].real, "positive diagonal")
        if d is not None and not unit:
            ctx.positive(d, "positive determinant")
        # every orthonormal basis and every spectrum of the support is
        # reached: the basis drawn diagonalises the matrix
        V = [e[3] for e in R.log if e[0] == "group"]
        ctx.true(len(V) == 1, "one basis drawn")
        D = H(V[0]) @ S @ V[0]
        for i in range(p):
            for j in range(p):
                if i != j:
                    ctx.equal(D[i, j], 0 * D[i, j],
                              "the basis drawn diagonalises the matrix")
        if not unit:
            for i in range(p):
                ctx.positive(D[i, i].real, "positive spectrum")
    return h


def stiefel(p, k, c):
    def h(ctx):
        with control_random(ctx):
            Q = fun("generate", "stiefel", c)(p, k)
        ctx.true(Q.shape == (p, k), "shape")
        ctx.true(ctx.kindof(Q) == ("c" if c else "f"), "kind")
        ctx.equal(H(Q) @ Q, ctx.eye(k, "c" if c else "f"), "orthonormal")
    return h


def standard(p, N, c):
    def h(ctx):
        kd = "c" if c else "f"
        f = fun("sample", "standard_normal_distribution", c)
        with control_random(ctx):
            X = f(p, N)
        ctx.true(X.shape == (p, N), "one column per sample")
        ctx.true(ctx.kindof(X) == kd, "kind")
        law(ctx, lambda: f(p, N).T, N, p, c, ctx.zeros((p,), kd),
            ctx.eye(p, kd))
    return h


def normal(p, N, c, how):
    def h(ctx):
        kd = "c" if c else "f"
        S = ctx.spd("S", p, c, how)
        S0 = S.copy()
        f = fun("sample", "normal_distribution", c)
        with control_random(ctx):
            X = f(N, S)
        ctx.true(X.shape == (p, N), "one column per sample")
        ctx.true(ctx.kindof(X) == kd, "kind")
        law(ctx, lambda: f(N, S).T, N, p, c, ctx.zeros((p,), kd), S)
        ctx.equal(S, S0, "covariance untouched")
    return h


def compound(p, N, c, how, col):
    def h(ctx):
        kd = "c" if c else "f"
        S = ctx.spd("S", p, c, how)
        t = ctx.reals("tau", (N,), pos=True)
        tau = t.reshape(N, 1) if col else t
        f = fun("sample", "compound_distribution", c)
        with control_random(ctx):
            X = f(tau, S)
        ctx.true(X.shape == (p, N), "one column per sample")
        law(ctx, lambda: f(tau, S).T, N, p, c, ctx.zeros((p,), kd),
            [t[i] * S for i in range(N)])
    return h


def lowrank(p, k, N, c, col):
    def h(ctx):
        kd = "c" if c else "f"
        U = ctx.data("U", (p, k), c)
        U0 = U.copy()
        t = ctx.reals("tau", (N,), pos=True)
        tau = t.reshape(N, 1) if col else t
        f = fun("sample", "tau_UUH_distribution", c)
        with control_random(ctx):
            X = f(tau, U)
        ctx.true(X.shape == (p, N), "one column per sample")
        law(ctx, lambda: f(tau, U).T, N, p, c, ctx.zeros((p,), kd),
            [t[i] * (U @ H(U)) + ctx.eye(p, kd) for i in range(N)])
        ctx.equal(U, U0, "basis untouched")
    return h


def gamma(N, default):
    def h(ctx):
        kw = {} if default else dict(nu=ctx.real("nu", pos=True, lo=.5,
                                                 hi=3))
        nu = 0.1 if default else kw["nu"]

        def run():
            with control_random(ctx) as R:
                x = gen().generate_textures_gamma_dist(N, **kw)
                run.R = R
            return x
        x = run()
        ctx.true(x.shape == (N, 1), "one texture per sample")
        (kind, names, par), = run.R.names
        ctx.true(kind == "gamma" and len(names) == N, "gamma draws")
        ctx.equal(par[0], nu, "shape parameter")
        for i in range(N):
            g = ctx.real(names[i], pos=True)
            ctx.equal(nu * x[i, 0], g, "unit mean")
    return h


def lognormal(N, default):
    def h(ctx):
        kw = {} if default else dict(variance=ctx.real("v", pos=True, lo=.5,
                                                       hi=3))
        v = num(ctx, 12) / 5 if default else kw["variance"]
        with control_random(ctx) as R:
            x = gen().generate_textures_lognormal_dist(N, **kw)
        ctx.true(x.shape == (N, 1), "one texture per sample")
        (kind, names, par), = R.names
        ctx.true(kind in ("lognorm", "randn") and len(names) == N,
                 "normal exponent")
        for i in range(N):
            z = ctx.real(names[i])
            if default:
                if ctx.sym:
                    continue
            ctx.equal(ln(ctx, x[i, 0]), ctx.root(v) * z - v / 2,
                      "log texture: variance v, mean -v/2 (unit mean)")
    return h


def refused(ctx):
    R, C = ctx.spd("r", 2, False), ctx.spd("c", 2, True)
    tau = ctx.reals("t", (2, 1), pos=True)
    for c in (False, True):
        wrong = C if not c else R
        for f, a in ((fun("sample", "normal_distribution", c), 2),
                     (fun("sample", "compound_distribution", c), tau),
                     (fun("sample", "tau_UUH_distribution", c), tau)):
            with control_random(ctx):
                ctx.raises(AssertionError, lambda: f(a, wrong),
                           "parameters of the other field are refused")


def instances(tier):
    out = [Instance("refused", refused, bounds="p=2")]
    for c in (False, True):
        t = tag(c)
        for p in (1, 2, 3):
            for unit in (False, True):
                if p == 3 and unit:
                    continue
                out.append(Instance("covariance-%s-p%d-%s" % (
                    t, p, "unit" if unit else "free"),
                    covariance(p, c, unit), bounds="p=%d" % p))
            for k in range(1, p + 1):
                out.append(Instance("stiefel-%s-%d-%d" % (t, p, k),
                                    stiefel(p, k, c), bounds="p=%d" % p))
            for N in (1, 2, 3):
                b = "p=%d, N=%d" % (p, N)
                out.append(Instance("standard-%s-p%d-N%d" % (t, p, N),
                                    standard(p, N, c), bounds=b))
                how = "spec" if p <= 2 else "diag"
                out.append(Instance("normal-%s-p%d-N%d" % (t, p, N),
                                    normal(p, N, c, how), bounds=b))
                for col in (False, True):
                    x = "column" if col else "flat"
                    out.append(Instance("compound-%s-p%d-N%d-%s" % (
                        t, p, N, x), compound(p, N, c, how, col), bounds=b))
                    for k in range(1, p + 1):
                        if p == 3 and N == 3:
                            continue
                        out.append(Instance("lowrank-%s-p%d-k%d-N%d-%s" % (
                            t, p, k, N, x), lowrank(p, k, N, c, col),
                            bounds=b))
    for N in (1, 2, 3):
        for d in (False, True):
            x = "default" if d else "nu"
            out.append(Instance("gamma-N%d-%s" % (N, x), gamma(N, d),
                                bounds="N=%d" % N))
            out.append(Instance("lognormal-N%d-%s" % (N, x), lognormal(N, d),
                                bounds="N=%d" % N))
    for c in (False, True):
        t = tag(c)
        for p, N in ((2, 40), (6, 3), (12, 1)):
            b = "p=%d, N=%d" % (p, N)
            out.append(Instance("standard-wide-%s-p%d-N%d" % (t, p, N),
                                wide(standard(p, N, c)), bounds=b))
            if p == 2:
                N = 12
            if p == 12:
                p, N = 4, 12
            out.append(Instance("normal-wide-%s-p%d-N%d" % (t, p, N),
                                wide(normal(p, N, c, "spec"), "rot"),
                                bounds=b))
            out.append(Instance("compound-wide-%s-p%d-N%d" % (t, p, N),
                                wide(compound(p, N, c, "spec", True), "rot"),
                                bounds=b))
            out.append(Instance("lowrank-wide-%s-p%d-N%d" % (t, p, N),
                                wide(lowrank(p, 2, N, c, True), "rot"),
                                bounds=b))
    for N in (12, 130):
        out.append(Instance("gamma-N%d" % N, gamma(N, False),
                            bounds="N=%d" % N))
        out.append(Instance("lognormal-N%d" % N, lognormal(N, False),
                            bounds="N=%d" % N))
    for c in (False, True):
        for p in (6, 12):
            for unit in (False, True) if p < 12 else (False,):
                out.append(Instance(
                    "covariance-wide-%s-p%d-%s" % (
                        tag(c), p, "unit" if unit else "free"),
                    wide(covariance(p, c, unit)),
                    bounds="p=%d, one basis, every spectrum" % p))
            out.append(Instance("stiefel-wide-%s-%d" % (tag(c), p),
                                wide(stiefel(p, p // 2, c)),
                                bounds="p=%d, one basis" % p))
    return out
