from symx.shim import control_random
from .common import *
from .c18 import cov_of, mean_of

PROPERTY = "C20"
ASSUMPTIONS = [
    "numpy's generators return independent standard normal, multivariate "
    "normal (mean + Cholesky factor times standard normals) and chi-square "
    "variables; every draw is an arbitrary symbol of its support"]


def law(ctx, draw, n, p, c, m, S, df=None):
    """draw() is an affine image of the normal draws: mean m, covariance S
    (given the mixing variables: S df/u), circular when complex, rows
    independent; S may be a list with one matrix per row"""
    Ss = S if isinstance(S, list) else [S] * n

    def run():
        with control_random(ctx) as R:
            x = draw()
            run.R = R
        return x.reshape(n, p)
    x = run()
    R = run.R
    mix, z = [], []
    for kind, names, par in R.names:
        if kind in ("randn", "mvn"):
            z += names
        elif kind == "chisquare":
            ctx.equal(par[0], df, "degrees of freedom of the mixing draw")
            mix += [(nm, 1) for nm in names]
        elif kind == "gamma":
            ctx.equal(2 * par[0], df, "degrees of freedom of the mixing draw")
            mix += [(nm, 2) for nm in names]
        else:
            ctx.fail("law", "unexpected draw " + kind)
    ctx.true(len(mix) == (n if df is not None else 0),
             "one mixing variable per sample")
    mean = x
    J = []
    for nm in z:
        d = ctx.partial(run, nm).reshape(n, p)
        J.append(d)
        mean = mean - ctx.real(nm) * d
    for i in range(n):
        ctx.equal(mean[i], m, "mean")
    used = []
    some = range(n) if n <= 12 else (0, 1, n // 2, n - 1)
    for i in some:
        for k in [k for k in some if k <= i]:
            C = ctx.zeros((p, p), "c" if c else "f")
            Q = ctx.zeros((p, p), "c" if c else "f")
            for d in J:
                C = C + outer(d[i], d[k])
                if c:
                    Q = Q + d[i].reshape(-1, 1) @ d[k].reshape(1, -1)
            if i != k:
                ctx.equal(C, 0 * C, "samples are uncorrelated")
            elif df is None:
                ctx.equal(C, Ss[i], "covariance")
            else:
                nm, f = mix[i]
                ctx.equal(C, Ss[i] * (df / (f * ctx.real(nm, pos=True))),
                          "covariance given the mixing variable")
            if c:
                ctx.equal(Q, 0 * Q, "circularity")
    return x


def dists(t):
    return prob().complex_multivariate_t if t else \
        prob().complex_multivariate_normal


def params(ctx, t, p, mean, cov):
    kc, S = cov_of(ctx, cov, p)
    km, m = mean_of(ctx, mean, p)
    kw = {}
    if kc:
        kw["shape" if t else "cov"] = kc["cov"]
    if km:
        kw["loc" if t else "mean"] = km["mean"]
    df = None
    if t:
        df = kw["df"] = ctx.real("df", pos=True, lo=.5, hi=6)
    return kw, m, S, df, mean == "complex" or cov == "complex"


def draws(t, p, n, mean, cov, via, state=None):
    def h(ctx):
        kw, m, S, df, c = params(ctx, t, p, mean, cov)
        k0 = {k: v.copy() for k, v in kw.items() if hasattr(v, "shape")
              and np.ndim(v)}
        a = {} if n is None else dict(size=n)
        N = 1 if n is None else n
        if via == "frozen":
            def draw():
                return dists(t)(**kw).rvs(**a)
        elif via == "positional":
            pos = [kw.get("loc" if t else "mean"),
                   kw.get("shape" if t else "cov", 1)] + (
                       [df] if t else []) + [N]

            def draw():
                return dists(t).rvs(*pos)
        else:
            def draw():
                return dists(t).rvs(**kw, **a)
        with control_random(ctx):
            x = draw()
        shape = (p,) if N == 1 else (N, p)
        if not c:
            shape = tuple(d for d in (N, p) if d > 1) or ()
        ctx.true(np.shape(x) == shape, "shape of the sample", str(np.shape(x)))
        ctx.true(ctx.kindof(x) == ("c" if c else "f"), "kind")

        def rows():
            d = draw()
            return d if np.ndim(d) else ctx.array([d])
        law(ctx, rows, N, p, c, m, S, df)
        for k, v in k0.items():
            ctx.equal(kw[k], v, "parameters untouched")
    return h


def seeds(t, c, via):
    """the generator the draws come from"""
    def h(ctx):
        p = 2
        kw, m, S, df, _ = params(ctx, t, p, "none",
                                 "complex" if c else "real")

        def states(f):
            with control_random(ctx) as R:
                f()
            ctx.true(len(R.states) > 0, "draws from a generator")
            return R.states

        def same(o, seed):
            if hasattr(o, "get_state"):
                return o.get_state()[1].tolist() == np.random.RandomState(
                    seed).get_state()[1].tolist()
            return o == seed
        if via == "frozen":
            seed = ctx.choose("seed", (3, 11))
            late = ctx.choose("late", (False, True))
            d = None if late else dists(t)(**kw, seed=seed)

            def get():
                return dists(t)(**kw, seed=seed) if late else d
            for o in states(lambda: get().rvs(size=2)):
                ctx.true(same(o, seed), "the seed given is used")
            for o in states(lambda: get().rvs(size=2, random_state=77)):
                ctx.true(same(o, 77), "the random state given is used")
        else:
            g = np.random.RandomState(5)
            for o in states(lambda: dists(t).rvs(**kw, size=2,
                                                 random_state=g)):
                ctx.true(o is g, "the random state given is used")
            for o in states(lambda: dists(t).rvs(**kw, random_state=9)):
                ctx.true(same(o, 9), "the random state given is used")
    return h


def instances(tier):
    out = []
    for t in (False, True):
        nm = "t" if t else "normal"
        for p in (1, 2):
            for n in (None, 1, 2, 3):
                for mean in ("none", "real", "complex"):
                    for cov in ("scalar", "real", "complex"):
                        if cov == "scalar" and mean == "none" and p > 1:
                            continue
                        if n == 3 and (p > 1 and mean != "none"):
                            continue
                        for via in ("frozen", "keyword", "positional"):
                            if via == "positional" and n is None:
                                continue
                            if n in (None, 3) and via != "keyword" and \
                                    mean != "none":
                                continue
                            out.append(Instance(
                                "%s-%s-m%s-S%s-p%d-n%s" % (
                                    nm, via, mean, cov, p, n),
                                draws(t, p, n, mean, cov, via),
                                bounds="p=%d, %s draws" % (p, n)))
        for mean, cov in (("complex", "complex"), ("real", "real"),
                          ("none", "scalar")):
            for p, n in ((1, 40), (2, 12), (4, 2),
                         (6 if cov == "real" else 4, 1)):
                if cov == "scalar" and p > 1:
                    continue
                out.append(Instance(
                    "%s-wide-m%s-S%s-p%d-n%d" % (nm, mean, cov, p, n),
                    wide(draws(t, p, n, mean, cov, "frozen"), "rot"),
                    bounds="p=%d, %d draws" % (p, n)))
        for c in (False, True):
            for via in ("frozen", "keyword"):
                out.append(Instance("seed-%s-%s-%s" % (nm, tag(c), via),
                                    seeds(t, c, via), bounds="p=2"))
    return out
