from .common import *
from .geometry import *
from .c25 import leafs

PROPERTY = "C33"


def outer_product(ctx, X, p):
    return X.T @ X.conj()


KINDS = {False: "hpd", True: "spv", "flat": "flat"}


class Flat:
    """a user's own manifold: Hermitian matrices, flat"""
    def retr(self, x, v):
        return x + v


class Setup:
    """estimator on Hermitian matrices whose gradient is an arbitrary linear
    combination of the estimate and the batch's outer product"""
    def __init__(self, ctx, p, how, tag_="", spv=False):
        self.ctx, self.p, self.spv = ctx, p, spv
        self.sp = Leaf("spv" if spv == 1 else "hpd", p)
        self.m = self.sp.make(ctx)
        if spv == "flat":
            self.m, self.spv = Flat(), False
        if ctx.wide:
            self.lr, self.a, self.b = (ctx.frac(*q) for q in (
                (1, 4), (1, 2), (-3, 4)))
        else:
            self.lr = ctx.real("lr", pos=True, lo=.2, hi=.6)
            self.a, self.b = ctx.real("a"), ctx.real("b")
        self.seen = []

    def rgrad(self, X, e):
        self.seen.append(X)
        if self.spv:
            s = (X * X.conj()).real.T
            return self.a * e + self.b * s
        return self.a * e + self.b * outer_product(self.ctx, X, self.p)

    def make(self, **kw):
        conv = (lambda e: (e @ e.T + np.eye(self.p)) + 0j) if self.spv \
            else None
        return online().StochasticGradientCovarianceEstimator(
            self.m, self.rgrad, self.lr, estimatetocov=conv, **kw)

    def run(self, x, X, rate, start=0):
        """reference: one step per sample, in order"""
        for i in range(X.shape[0]):
            t = self.lr / (start + i + 1) if rate == "inverse iteration" \
                else self.lr
            x = self.m.retr(x, -t * self.rgrad(X[i:i + 1], x))
        return x


def same_state(ctx, est, ref, label, s):
    ctx.equal(est.estimate_, ref, label)
    if not s.spv:
        ctx.equal(est.covariance_, est.estimate_, label + ": covariance")


def samples(ctx, name, N, p):
    return ctx.data(name, (N, p), True)


def once(N, p, how, rate, spv):
    """from a given start"""
    def h(ctx):
        s = Setup(ctx, p, how, spv=spv)
        x = s.sp.pt(ctx, "x", how)
        X = samples(ctx, "X", N, p)
        X0, x0 = X.copy(), x.arr.copy()
        est = s.make()
        if rate is None:
            r = est.fit(X, init=x.arr)
        else:
            r = est.fit(X, init=x.arr, lr_update=rate)
        ctx.true(r is est, "returns itself")
        seen = list(s.seen)
        ctx.true(len(seen) == N, "one update per sample")
        for i in range(N):
            ctx.equal(seen[i], X0[i:i + 1], "each sample once, in order")
        same_state(ctx, est, s.run(x0, X0, rate or "inverse iteration"),
                   "one step per sample", s)
        ctx.equal(X, X0, "samples untouched")
        ctx.equal(x.arr, x0, "start untouched")
    return h


def again(N, p, how, rate, spv, between):
    """a second fit with a start forgets the first; without a start it
    continues"""
    def h(ctx):
        s = Setup(ctx, p, how, spv=spv)
        x, y = s.sp.pt(ctx, "x", how), s.sp.pt(ctx, "y", how)
        X, Y = samples(ctx, "X", N, p), samples(ctx, "Y", N, p)
        est = s.make()
        est.fit(X, init=x.arr, lr_update=rate)
        if between == "update":
            est.update(Y[0:1], rate)
        if between == "restart":
            est.fit(Y, init=y.arr, lr_update=rate)
            same_state(ctx, est, s.run(y.arr, Y, rate), "restarted", s)
        elif between == "own":
            # the current estimate itself as the new start
            e = est.estimate_
            want = s.run(e.copy(), Y, rate)
            est.fit(Y, init=e, lr_update=rate)
            same_state(ctx, est, want, "restarted", s)
            if spv == "flat":
                est.fit(X, init=est.estimate_, lr_update=rate)
                same_state(ctx, est, s.run(want, X, rate),
                           "restarted again", s)
        elif between == "switch":
            # another schedule, still from its own start
            o = "constant" if rate != "constant" else "inverse iteration"
            est.fit(Y, init=y.arr, lr_update=o)
            same_state(ctx, est, s.run(y.arr, Y, o), "restarted", s)
        elif between == "update":
            est.fit(Y, init=y.arr, lr_update=rate)
            same_state(ctx, est, s.run(y.arr, Y, rate), "restarted", s)
        elif between == "set":
            est.set_estimate(y.arr)
            est.fit(Y, lr_update=rate)
            if rate == "constant":
                same_state(ctx, est, s.run(y.arr, Y, rate),
                           "from the estimate set", s)
        else:
            e = est.estimate_.copy()
            est.fit(Y, lr_update=rate)
            same_state(ctx, est, s.run(e, Y, rate, start=N), "continued", s)
            two = s.make()
            two.fit(np.concatenate([X, Y]), init=x.arr, lr_update=rate)
            ctx.equal(est.estimate_, two.estimate_,
                      "two parts like one pass")
    return h


def updates(N, p, how, rate, spv):
    """fit equals updating with one sample after the other"""
    def h(ctx):
        s = Setup(ctx, p, how, spv=spv)
        x = s.sp.pt(ctx, "x", how)
        X = samples(ctx, "X", N, p)
        a, b = s.make(), s.make()
        a.fit(X, init=x.arr, lr_update=rate)
        b.set_estimate(x.arr)
        for i in range(N):
            b.update(X[i:i + 1], rate)
        ctx.equal(a.estimate_, b.estimate_, "fit = updates")
        ctx.equal(a.covariance_, b.covariance_, "same covariance")
    return h


def separate(N, p, how, rate):
    """estimators do not share state"""
    def h(ctx):
        s = Setup(ctx, p, how)
        x, y = s.sp.pt(ctx, "x", how), s.sp.pt(ctx, "y", how)
        X, Y = samples(ctx, "X", N, p), samples(ctx, "Y", N, p)
        a, b = s.make(), s.make()
        a.set_estimate(x.arr)
        b.set_estimate(y.arr)
        for i in range(N):
            # any interleaving
            if ctx.choose("first%d" % i, (0, 1)):
                a.update(X[i:i + 1], rate)
                b.update(Y[i:i + 1], rate)
            else:
                b.update(Y[i:i + 1], rate)
                a.update(X[i:i + 1], rate)
        ctx.equal(a.estimate_, s.run(x.arr, X, rate), "first estimator")
        ctx.equal(b.estimate_, s.run(y.arr, Y, rate), "second estimator")
    return h


def history(k, p, spv, rate=None, sizes=(1,)):
    """any history of fits with and without start and single updates"""
    ops = [(o, n) for o in ("fit from", "fit", "update") for n in sizes]

    def h(ctx):
        s = Setup(ctx, p, "full", spv=spv)
        est = s.make()
        r = rate or ctx.choose("rate", ("inverse iteration", "constant"))
        cur, n = None, 0
        for i in range(k):
            op, N = ctx.choose("op%d" % i, ops)
            X = samples(ctx, "X%d" % i, N, p)
            if op == "fit from":
                x = s.sp.pt(ctx, "x%d" % i, "full")
                est.fit(X, init=x.arr, lr_update=r)
                cur, n = s.run(x.arr, X, r), N
            elif op == "fit":
                est.fit(X, lr_update=r)
                if cur is not None:
                    cur, n = s.run(cur, X, r, start=n), n + N
            else:
                est.update(X, r)
                if cur is not None:
                    t = s.lr / (n + 1) if r == "inverse iteration" else s.lr
                    cur = s.m.retr(cur, -t * s.rgrad(X, cur))
                    n = n + 1
            if cur is None:
                ctx.true(est.estimate_ is None, "nothing estimated yet")
            else:
                ctx.equal(est.estimate_, cur, "state after the history")
    return h


def longer(plan, p, rate):
    """many fits and updates; plan: (operation, batch size)"""
    def h(ctx):
        s = Setup(ctx, p, "full", spv="flat")
        est = s.make()
        cur, n = None, 0
        for i, (op, N) in enumerate(plan):
            X = samples(ctx, "X%d" % i, N, p)
            if not i or op == "fit from":
                x = s.sp.pt(ctx, "x%d" % i, "full")
                est.fit(X, init=x.arr, lr_update=rate)
                cur, n = s.run(x.arr, X, rate), N
            elif op == "fit":
                est.fit(X, lr_update=rate)
                cur, n = s.run(cur, X, rate, start=n), n + N
            else:
                est.update(X, rate)
                t = s.lr / (n + 1) if rate == "inverse iteration" else s.lr
                cur = s.m.retr(cur, -t * s.rgrad(X, cur))
                n = n + 1
        ctx.equal(est.estimate_, cur, "state after the history")
    return h


def verbose(N, p, cost):
    """progress reports change nothing and see the current estimate"""
    def h(ctx):
        s = Setup(ctx, p, "full")
        x = s.sp.pt(ctx, "x", "full")
        X = samples(ctx, "X", N, p)
        seen = []

        def c(Z, e):
            seen.append((Z, e))
            return 0.0
        est = s.make(verbosity=True, cost=c if cost else None)
        import io
        import contextlib
        with contextlib.redirect_stderr(io.StringIO()):
            est.fit(X, init=x.arr, lr_update="constant")
        ctx.equal(est.estimate_, s.run(x.arr, X, "constant"),
                  "one step per sample")
        if cost:
            ctx.true(len(seen) == N, "cost after every update")
            for i, (Z, e) in enumerate(seen):
                ctx.equal(Z, X, "cost of the data")
                ctx.equal(e, s.run(x.arr, X[:i + 1], "constant"),
                          "cost of the current estimate")
    return h


def nothing(ctx):
    """no start: nothing happens"""
    s = Setup(ctx, 1, "full")
    est = s.make()
    r = est.fit(samples(ctx, "X", 2, 1))
    ctx.true(r is est and est.estimate_ is None and not s.seen,
             "no initial point")


def instances(tier):
    out = [Instance("nothing", nothing, bounds="p=1")]
    T = tier != "quick"
    cfg = [(1, 1, "full", False), (2, 1, "full", False),
           (1, 2, "full", False), (1, 2, "full", True),
           (1, 1, "full", "flat"), (2, 2, "full", "flat"),
           (3, 1, "full", "flat"), (3, 2, "diag", "flat"),
           (4, 1, "full", "flat")]
    if T:
        cfg += [(3, 1, "full", False), (2, 1, "full", True),
                (6, 1, "full", "flat"), (4, 2, "full", "flat")]
    for N, p, how, spv in cfg:
        nm = "%s-N%d-p%d-%s" % (KINDS[spv], N, p, how)
        b = "%d samples, p=%d" % (N, p)
        for r in ("inverse iteration", "constant"):
            rn = r.split()[0]
            out.append(Instance("fit-%s-%s" % (nm, rn),
                                once(N, p, how, r, spv), bounds=b))
            out.append(Instance("updates-%s-%s" % (nm, rn),
                                updates(N, p, how, r, spv), bounds=b))
            if spv == "flat" and N <= (3 if p == 1 else 2) or \
                    (N, p, spv) == (1, 1, False):
                for w in ("restart", "switch", "own", "update", "set",
                          "continue"):
                    if w == "own" and N * p > 2:
                        continue
                    if w == "set" and r != "constant":
                        continue
                    out.append(Instance("%s-%s-%s" % (w, nm, rn),
                                        again(N, p, how, r, spv, w),
                                        bounds="two fits, " + b))
        out.append(Instance("fit-%s-default" % nm,
                            once(N, p, how, None, spv), bounds=b))
    for N in (1, 2):
        for r in ("inverse iteration", "constant"):
            out.append(Instance("separate-N%d-%s" % (N, r.split()[0]),
                                separate(N, 1, "full", r),
                                bounds="two estimators, %d updates" % N))
        for c in (False, True):
            out.append(Instance("verbose-N%d%s" % (N, "-cost" if c else ""),
                                verbose(N, 1, c), bounds="%d samples" % N))
    for k in (2, 3, 4) if T else (2, 3):
        out.append(Instance("history-flat-%d" % k, history(k, 1, "flat"),
                            bounds="all histories of %d operations" % k,
                            maxpaths=400))
    for r in ("inverse iteration", "constant"):
        for k, sizes in ((2, (1, 2, 3)), (3, (1, 2))) + (
                ((3, (1, 2, 3)),) if T else ()):
            out.append(Instance(
                "history-sizes%d-%d-%s" % (max(sizes), k, r.split()[0]),
                history(k, 1, "flat", r, sizes), maxpaths=800,
                bounds="all histories of %d operations on up to %d samples"
                % (k, max(sizes))))
    out.append(Instance("history-hpd-2", history(2, 1, False),
                        bounds="all histories of 2 operations"))
    for r in ("inverse iteration", "constant"):
        rn = r.split()[0]
        for N, p in ((130, 1), (60, 2), (4, 3), (1030, 1)):
            b = "%d samples, p=%d, first and last arbitrary" % (N, p)
            out.append(Instance("fit-wide-N%d-p%d-%s" % (N, p, rn),
                                wide(once(N, p, "full", r, "flat")),
                                bounds=b))
            if N > 130:
                continue
            out.append(Instance("updates-wide-N%d-p%d-%s" % (N, p, rn),
                                wide(updates(N, p, "full", r, "flat")),
                                bounds=b))
            for w in ("restart", "continue", "update"):
                if w == "continue" and p == 3:
                    continue  # the merged 3x3 inverses exceed the time limit
                out.append(Instance("%s-wide-N%d-p%d-%s" % (w, N, p, rn),
                                    wide(again(N, p, "full", r, "flat", w)),
                                    bounds=b))
        for nm, plan in (
                ("updates", [("update", 1)] * 130),
                ("batches", [("update", k % 3 + 1) for k in range(40)]),
                ("mixed", [(("fit", "update", "update", "fit from",
                             "fit")[k % 5], k % 4 + 1) for k in range(30)]),
                ("fits", [("fit", 3)] * 12)):
            out.append(Instance("long-%s-%s" % (nm, rn),
                                wide(longer(plan, 1, r)),
                                bounds="%d operations, first and last "
                                "samples arbitrary" % len(plan)))
    return out
