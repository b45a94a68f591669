"""Progress reporting never changes what is computed."""
import io
import sys

from .common import *
from .c04 import constants
from .c05 import algos, extra, nonzero, lnorm
from .c35 import capture, real_form

PROPERTY = "C37"
ASSUMPTIONS = ["bars and log records go to a sink; what they say is not "
               "decided, only that saying it changes nothing"]


@contextlib.contextmanager
def sink(level=None):
    """standard error into a buffer, log records of every level produced"""
    err, sys.stderr = sys.stderr, io.StringIO()
    out, sys.stdout = sys.stdout, io.StringIO()
    root = logging.getLogger()
    old = root.level
    dis = root.manager.disable
    class Drop(logging.Handler):
        def emit(self, record):
            record.getMessage()
    h = Drop()
    hs = root.handlers[:]
    root.handlers[:] = [h]
    if level is not None:
        logging.disable(logging.NOTSET)
        root.setLevel(level)
    try:
        yield
    finally:
        root.handlers[:] = hs
        root.setLevel(old)
        logging.disable(dis)
        sys.stderr, sys.stdout = err, out


LEVEL = (logging.DEBUG, None)


def iterate(name, k, how):
    """k steps, every combination of verbosity and log level"""
    def h(ctx):
        f, c, names = algos()[name]
        X = ctx.data("x", (1 if name.startswith("huber") else 2, 1), c)
        nonzero(ctx, X)
        S0 = ctx.spd("s", 1, c)
        a = extra(ctx, names)
        tol = ctx.real("tol", lo=0, hi=1) if how == "tol" else NEVER
        ref = f(X, *a, init=S0, tol=tol, iter_max=k)
        for v in (True, 1, False):
            for l in LEVEL:
                with sink(l):
                    r = f(X, *a, init=S0, tol=tol, iter_max=k, verbosity=v)
                ctx.equal(r[0], ref[0], "estimate")
                if k:
                    ctx.equal(r[1], ref[1], "error")
                ctx.equal(r[2], ref[2], "count")
    return h


def many(name, K):
    """many steps on fixed samples that keep moving (Tyler, Student) or
    settle (Huber)"""
    def h(ctx):
        f, c, names = algos()[name]
        p = 2 if names == () else 1
        X = ctx.zeros((3 if p == 2 else 2, p), "c" if c else "f")
        if p == 2:
            X[0, 0], X[1, 0], X[2, 1] = (ctx.frac(v) for v in (2, -1, 3))
        else:
            X[0, 0], X[1, 0] = ctx.frac(2), -ctx.frac(2)
        s = ctx.real("s", pos=True)
        if names == ("q",):
            q = quantile(ctx)
            lb, beta = constants(ctx, q, 1, c)
            ctx.assume(4 < lb * s)
            ctx.assume(beta < lb)
            a = (q,)
        else:
            a = tuple(ctx.frac(1, 16) for n in names)
        S0 = ctx.eye(p, "c" if c else "f") * s
        ref = f(X, *a, init=S0, tol=NEVER, iter_max=K)
        for v in (True, False):
            for l in LEVEL:
                with sink(l):
                    r = f(X, *a, init=S0, tol=NEVER, iter_max=K, verbosity=v)
                ctx.equal(r[0], ref[0], "estimate")
                ctx.equal(r[1], ref[1], "error")
                ctx.equal(r[2], ref[2], "count")
    return h


def classes(name):
    """estimators: two fits in a row"""
    def h(ctx):
        e = est()
        f, c, names = algos()[name]
        pre = "Complex" if c else ""
        cl = getattr(e, {"tyler": pre + "TylerShapeMatrix",
                         "student": pre + "CenteredStudentMLE",
                         "huber": pre + "HuberMEstimator"}[
                             name.split("-")[0]])
        N = 1 if name.startswith("huber") else 2
        X, Y = ctx.data("x", (N, 1), c), ctx.data("y", (N, 1), c)
        nonzero(ctx, X)
        nonzero(ctx, Y)
        S0 = ctx.spd("s", 1, c)
        a = extra(ctx, names)
        ref = cl(*a, tol=NEVER, iter_max=1).fit(Y, init=S0)
        for v in (True, False):
            for l in LEVEL:
                with sink(l):
                    m = cl(*a, tol=NEVER, iter_max=1, verbosity=v)
                    m.fit(X, init=S0)
                    m.fit(Y, init=S0)
                ctx.equal(m.covariance_, ref.covariance_, "estimate")
                ctx.equal(m.err_, ref.err_, "error")
                ctx.equal(m.iteration_, ref.iteration_, "count")
                ctx.equal(m.location_, ref.location_, "location")
    return h


def natural(c):
    """natural gradient: the problem handed over and what comes back"""
    def h(ctx):
        e = est()
        f = e.complex_tyler_shape_matrix_naturalgradient if c else \
            e.tyler_shape_matrix_naturalgradient
        X = ctx.data("x", (2, 1), c)
        nonzero(ctx, X)
        S0 = ctx.spd("s", 1, c)
        W = ctx.spd("w", 1, c)
        ans = pt = real_form(ctx, W) if c else W
        ref, s0 = capture(f, ans, X, init=S0)
        for v in (True, False):
            with sink():
                r, s = capture(f, ans, X, init=S0, verbosity=v)
            ctx.equal(r[0], ref[0], "estimate")
            ctx.equal(len(s), len(s0), "optimisations")
            ctx.equal(s[0][1], s0[0][1], "start")
            ctx.equal(s[0][0].cost(pt), s0[0][0].cost(pt), "cost")
    return h


def mm(a, b, c):
    def h(ctx):
        X = ctx.data("x", (2, a * b), c)
        nonzero(ctx, X)
        f = struct().estimation_cov_kronecker_MM
        ref = f(X, a, b, tol=NEVER, iter_max=1)
        for v in (True, False):
            for l in LEVEL:
                with sink(l):
                    r = f(X, a, b, tol=NEVER, iter_max=1, verbosity=v)
                ctx.equal(r[0], ref[0], "A")
                ctx.equal(r[1], ref[1], "B")
                ctx.equal(r[2], ref[2], "error")
                ctx.equal(r[3], ref[3], "count")
        if not c:
            return
        with sink(logging.DEBUG):
            m = struct().KroneckerEllipticalMM(a, b, tol=NEVER, iter_max=1,
                                               verbosity=True).fit(X)
        ctx.equal(m.A_, ref[0], "A_")
        ctx.equal(m.B_, ref[1], "B_")
    return h


def student(a, b):
    def h(ctx):
        X = ctx.data("x", (2, a * b), True)
        df = ctx.real("df", pos=True, lo=0.5, hi=6)
        A, B = entries(ctx, "A", a), entries(ctx, "B", b)
        seen = []

        def reply(problem, x):
            seen.append((problem, x))
            return A, B
        for v in (0, 1, 2):
            for l in LEVEL:
                with solver_stub(reply), sink(l):
                    m = struct().KroneckerStudent(a, b, df, verbosity=v)
                    m.fit(X)
                (p, x), (q, y) = seen[-1], seen[0]
                ctx.equal(x[0], y[0], "start of A")
                ctx.equal(x[1], y[1], "start of B")
                ctx.equal(p.cost([A, B]), q.cost([A, B]), "cost")
                g, e = p.egrad([A, B]), q.egrad([A, B])
                ctx.equal(g[0], e[0], "gradient along A")
                ctx.equal(g[1], e[1], "gradient along B")
                ctx.equal(m.A_, A, "A_")
                ctx.equal(m.B_, B, "B_")
    return h


class Flat:
    def retr(self, x, v):
        return x + v


def online_(rate):
    """with and without a bar, with and without a cost to show"""
    def h(ctx):
        X = ctx.data("x", (2, 2), True)
        x0 = ctx.herm("s", 2, True)
        lr = ctx.real("lr", pos=True, lo=.2, hi=.6)
        a = ctx.real("a")
        asked = []

        def cost(Y, e):
            asked.append((Y, e))
            return (e @ e)[0, 0].real
        def rgrad(Y, e):
            return a * e + Y.T @ Y.conj()
        cl = online().StochasticGradientCovarianceEstimator
        ref = cl(Flat(), rgrad, lr).fit(X, init=x0, lr_update=rate)
        for v in (True, False):
            for k in (cost, None):
                with sink():
                    m = cl(Flat(), rgrad, lr, cost=k, verbosity=v)
                    ctx.true(m.fit(X, init=x0, lr_update=rate) is m,
                             "returns itself")
                ctx.equal(m.estimate_, ref.estimate_, "estimate")
                ctx.equal(m.covariance_, ref.covariance_, "covariance")
        for Y, e in asked:
            ctx.equal(Y, X, "the cost is asked of the data being fitted")
    return h


def bar():
    """the logging bar counts and yields what it is given"""
    def h(ctx):
        import robuststats.utils.verbose as m
        xs = [ctx.real("x%d" % i) for i in range(3)]
        lg = logging.getLogger("symx-bar")
        with sink(logging.DEBUG):
            got = list(m.logging_tqdm(xs))
            b = m.logging_tqdm(xs, logger=lg)
            got2 = list(b)
            ctx.true(b.logger is lg, "logger")
            p = m.logging_tqdm(total=3)
            for k in range(3):
                p.update()
                p.set_description("x", refresh=True)
                ctx.true(p.n == k + 1, "counts the updates")
            p.close()
        ctx.true(len(got) == 3 and len(got2) == 3, "items")
        for i in range(3):
            ctx.equal(got[i], xs[i], "yields the items in order")
            ctx.equal(got2[i], xs[i], "yields the items in order")
    return h


def instances(tier):
    out = []
    for n in ["%s-%s" % (a, t) for a in ("tyler", "student", "huber")
              for t in ("real", "complex")]:
        for k in (0, 1, 2):
            if n.startswith("huber") and k == 2:
                continue
            out.append(Instance("%s-%d" % (n, k), iterate(n, k, "never"),
                                bounds="p=1, %d steps" % k))
        out.append(Instance(n + "-many", many(
            n, 60 if n.startswith("t") else 130), core=False,
                            bounds="fixed samples, 60 or 130 steps"))
        if not n.startswith("huber"):
            out.append(Instance(n + "-tol", iterate(n, 2, "tol"),
                                bounds="p=1, at most 2 steps, every "
                                "tolerance"))
        out.append(Instance(n + "-class", classes(n), bounds="p=1, 2 fits"))
    for c in (False, True):
        out.append(Instance("natural-" + tag(c), natural(c),
                            bounds="N=2,p=1"))
        for a, b in ((1, 1), (1, 2)):
            out.append(Instance("mm-%s-%dx%d" % (tag(c), a, b), mm(a, b, c),
                                bounds="N=2, 1 step"))
    for a, b in ((1, 1), (2, 1), (1, 2)):
        out.append(Instance("student-%dx%d" % (a, b), student(a, b),
                            bounds="N=2"))
    for r in ("inverse iteration", "constant"):
        out.append(Instance("online-" + r.split()[0], online_(r),
                            bounds="p=2, 2 samples"))
    out.append(Instance("bar", bar(), bounds="3 items"))
    return out
