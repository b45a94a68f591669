from .common import *

PROPERTY = "C34"
ASSUMPTIONS = [
    "numpy's global generator is a state machine: its state has four "
    "components (key, position, kept normal number and its flag), seeding "
    "determines all of them from the seed, and every draw and the state "
    "after it are (arbitrary) functions of the state"]


def mc():
    import robuststats.utils.montecarlo as m
    return m


def chk():
    import robuststats.utils.checking as m
    return m


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


@contextlib.contextmanager
def generator(ctx):
    """numpy's global generator, and a function putting it back in its
    initial, arbitrary state"""
    if ctx.sym:
        from symx.shim import AbstractGenerator, RandomStub, PROXIES
        g = AbstractGenerator(ctx)
        init = g.state
        RandomStub.GEN[0] = g
        npr = PROXIES[id(np.random)]
        try:
            yield npr, lambda: setattr(g, "state", init)
        finally:
            RandomStub.GEN[0] = None
    else:
        saved = np.random.get_state()
        k = ctx.integer("rng", 0, 10 ** 6)
        kept = ctx.choose("kept", [False, True])

        def restart():
            np.random.seed(k)
            if kept:        # a normal number is kept for the next draw
                np.random.randn()
        restart()
        try:
            yield np.random, restart
        finally:
            np.random.set_state(saved)


DRAWS = (("rand", "rand"), ("randn",))


def simple(npr, ops, log):
    for op in ops:
        if op[0] == "rand":
            log.append(npr.rand())
        elif op[0] == "randn":
            log.append(npr.randn())
        elif op[0] == "seed":
            npr.seed(op[1])


def run(npr, ops, logs, who=()):
    """the program with the code's context manager"""
    log = logs.setdefault(who, [])
    for k, op in enumerate(ops):
        if op[0] == "block":
            _, seed, body, out = op
            sub = who + (k,)
            try:
                for _ in range(1):
                    with mc().temp_seed(seed):
                        run(npr, body, logs, sub)
                        if isinstance(out, BaseException):
                            raise out
                        if out == "continue":
                            continue
                        if out == "break":
                            break
                if isinstance(out, BaseException):
                    log.append("swallowed")
            except (Boom, Stop) as e:
                log.append(e)
        else:
            simple(npr, [op], log)


def expected(npr, restart, ops, out, who=(), seed=None):
    """every level of the program draws as if it were alone, from its seed
    (the outermost one: from the initial state)"""
    if who:
        npr.seed(seed)
    else:
        restart()
    log = out.setdefault(who, [])
    for k, op in enumerate(ops):
        if op[0] == "block":
            if isinstance(op[3], BaseException):
                log.append(op[3])
        else:
            simple(npr, [op], log)
    for k, op in enumerate(ops):
        if op[0] == "block":
            expected(npr, restart, op[2], out, who + (k,), op[1])


def compare(ctx, a, b):
    ctx.true(set(a) == set(b), "every block is run")
    for who in b:
        nm = "outside" if not who else "inside"
        ctx.true(len(a[who]) == len(b[who]), nm + ": number of draws")
        for x, y in zip(a[who], b[who]):
            if isinstance(y, BaseException) or isinstance(x, str):
                ctx.true(x is y, nm + ": the exception is passed on")
            else:
                ctx.equal(x, y, "%s: stream" % nm)


def exits():
    return ["end", "continue", "break", Boom("x"), Stop("y")]


def history(before, body, after, nested=None, reseed=False, outs=None):
    """before; with temp_seed(s): body [nested block] ; after"""
    def h(ctx):
        with generator(ctx) as (npr, restart):
            s = ctx.integer("seed", 0, 2 ** 32 - 1)
            ex = exits() if outs is None else outs
            b = [(k,) for k in body]
            if reseed:
                b.insert(len(b) // 2, ("seed", ctx.integer("s2", 0, 999)))
            if nested is not None:
                ib = [(k,) for k in nested]
                b.insert(len(b) // 2, ("block", ctx.integer("s3", 0, 999),
                                       ib, ctx.choose("inner exit", ex)))
            ops = [(k,) for k in before] + \
                [("block", s, b, ctx.choose("exit", ex))] + \
                [(k,) for k in after]
            got, want = {}, {}
            restart()
            run(npr, ops, got)
            expected(npr, restart, ops, want)
            compare(ctx, got, want)
    return h


def sequence(n, depth, fixed=False):
    """n blocks one after another, the seeds possibly equal, each block
    containing the next level; fixed: every third block is left by an
    exception"""
    def h(ctx):
        with generator(ctx) as (npr, restart):
            seeds = [ctx.integer("s%d" % i, 0, 3) for i in range(n)]
            if fixed:
                ends = [[Boom("b") if (d + i) % 3 == 2 else "end"
                         for i in range(n)] for d in range(depth)]
            else:
                ends = [[ctx.choose("exit%d_%d" % (d, i), ["end", Boom("b")])
                         for i in range(n)] for d in range(depth)]

            def level(d):
                ops = [("randn",)]
                for i in range(n):
                    body = level(d - 1) if d > 1 else [("rand",), ("randn",)]
                    ops += [("block", seeds[i], body, ends[d - 1][i]),
                            ("rand",)]
                return ops + [("randn",)]
            ops = level(depth)
            got, want = {}, {}
            restart()
            run(npr, ops, got)
            expected(npr, restart, ops, want)
            compare(ctx, got, want)
    return h


def unwinding(k):
    """an exception leaves k nested contexts at once"""
    def h(ctx):
        with generator(ctx) as (npr, restart):
            seeds = [ctx.integer("s%d" % i, 0, 999) for i in range(k)]
            e = ctx.choose("raised", [Boom("x"), Stop("y")])
            restart()
            npr.randn()
            caught = None
            inner = []
            try:
                with contextlib.ExitStack() as st:
                    for s in seeds:
                        st.enter_context(mc().temp_seed(s))
                        inner.append(npr.randn())
                    raise e
            except (Boom, Stop) as x:
                caught = x
            got = [npr.randn(), npr.rand()]
            ctx.true(caught is e, "the exception is passed on")
            restart()
            npr.randn()
            for g in got[:1]:
                ctx.equal(g, npr.randn(), "outside: stream")
            ctx.equal(got[1], npr.rand(), "outside: stream")
            for s, g in zip(seeds, inner):
                npr.seed(s)
                ctx.equal(g, npr.randn(), "inside: stream")
    return h


def refused_seed():
    """a seed the generator refuses changes nothing"""
    def h(ctx):
        with generator(ctx) as (npr, restart):
            s = ctx.integer("seed", -3, 2 ** 32 + 3)
            ok = bool(s >= 0) and bool(s <= 2 ** 32 - 1)
            restart()
            npr.randn()
            entered = False
            try:
                with mc().temp_seed(s):
                    entered = True
                    npr.rand()
            except ValueError:
                pass
            got = [npr.randn(), npr.rand()]
            ctx.true(entered == ok, "refused seeds raise")
            restart()
            npr.randn()
            ctx.equal(got[0], npr.randn(), "outside: stream")
            ctx.equal(got[1], npr.rand(), "outside: stream")
    return h


def unseeded():
    def h(ctx):
        with generator(ctx) as (npr, restart):
            restart()
            npr.randn()
            with mc().temp_seed(None):
                npr.randn()
                npr.rand()
            got = [npr.randn(), npr.rand()]
            restart()
            npr.randn()
            ctx.equal(got[0], npr.randn(), "outside: stream")
            ctx.equal(got[1], npr.rand(), "outside: stream")
    return h


# ---------------------------------------------------------------- validators

def accepts(fn):
    try:
        r = fn()
    except (ValueError, TypeError) as e:
        return type(e)
    return r


def positive(kind, strictly):
    def h(ctx):
        x = ctx.real("x") if kind == "real" else ctx.integer("x", -3, 3)
        f = chk().check_positive
        r = accepts((lambda: f(x, "x", strictly=strictly))
                    if strictly is not None else (lambda: f(x, "x")))
        if strictly is False:
            ok = bool(x >= 0)
        else:
            ok = bool(x > 0)
        if ok:
            ctx.true(r is None, "positive number accepted")
        else:
            ctx.true(r is ValueError, "other number refused")
    return h


def boundary(strictly):
    """zero and its neighbours, as Python and numpy numbers"""
    def h(ctx):
        x = ctx.choose("x", [0, 0., -0., np.int64(0), np.float64(0),
                             np.float32(0), False, 1e-300, -1e-300, 5e-324,
                             -5e-324, 1, -1, True, np.inf, -np.inf, np.nan])
        r = accepts(lambda: chk().check_positive(x, "x", strictly=strictly))
        ok = bool(x > 0) if strictly else bool(x >= 0)
        ctx.true(r is (None if ok else ValueError), "boundary values")
    return h


class A(int):
    pass


TYPES = [int, float, str, list, tuple, bool, A, np.ndarray, type(None)]
VALUES = [1, 1.5, "a", [1], (1,), True, A(2), np.zeros(1), None]


def types_(k):
    """every value against every list of k accepted types"""
    import itertools

    def h(ctx):
        i = ctx.choose("value", list(range(len(VALUES))))
        acc = ctx.choose("accepted", list(itertools.combinations(
            range(len(TYPES)), k)))
        l = [TYPES[j] for j in acc]
        before = list(l)
        r = accepts(lambda: chk().check_type(VALUES[i], "v", l))
        ctx.true(r is (None if i in acc else TypeError), "accepted types")
        ctx.true(l == before, "list of types untouched")
    return h


def values(k, kind):
    def h(ctx):
        mk = (lambda n: ctx.integer(n, -3, 3)) if kind == "int" \
            else (lambda n: ctx.real(n))
        x = mk("x")
        vals = [mk("v%d" % i) for i in range(k)]
        ok = False
        for v in vals:
            ok = ok or bool(x == v)
        r = accepts(lambda: chk().check_value(x, "x", vals))
        ctx.true(r is (None if ok else ValueError), "accepted values")
        ctx.true(len(vals) == k, "list of values untouched")
    return h


def value_tuples(k):
    """shapes are compared as whole tuples"""
    def h(ctx):
        x = tuple(ctx.integer("x%d" % i, 1, 3) for i in range(k))
        m = ctx.choose("length", [k - 1, k, k + 1])
        v = tuple(ctx.integer("v%d" % i, 1, 3) for i in range(m))
        ok = m == k
        for a, b in zip(x, v):
            ok = ok and bool(a == b)
        r = accepts(lambda: chk().check_value(x, "x", [v]))
        ctx.true(r is (None if ok else ValueError), "accepted tuples")
    return h


def strings():
    def h(ctx):
        opts = ["trace", "Trace", "", "tr", "trace "]
        x = ctx.choose("x", opts)
        acc = ctx.choose("accepted", [["trace"], ["trace", "tr"], [],
                                      ["", "trace "], opts])
        r = accepts(lambda: chk().check_value(x, "x", acc))
        ctx.true(r is (None if any(a == x for a in acc) else ValueError),
                 "accepted strings")
    return h


def instances(tier):
    out = []
    T = tier != "quick"
    b = "one context, at most 4 draws per part"
    for before in ((), ("rand",), ("randn",), ("randn", "rand")):
        for body in ((), ("rand",), ("randn",), ("rand", "randn", "randn")):
            nm = "%s-%s" % ("".join(x[-1] for x in before) or "0",
                            "".join(x[-1] for x in body) or "0")
            out.append(Instance("history-" + nm, history(
                before, body, ("randn", "rand", "randn")), bounds=b))
            if body:
                out.append(Instance("reseeded-" + nm, history(
                    before, body, ("rand", "randn"), reseed=True), bounds=b))
                out.append(Instance("nested-" + nm, history(
                    before, body, ("randn", "rand"), nested=("randn",)),
                    bounds="two nested contexts", maxpaths=60))
            if T:
                out.append(Instance("nested2-" + nm, history(
                    before, body, ("randn",) * 3,
                    nested=("randn", "rand"), reseed=True),
                    bounds="two nested contexts", maxpaths=60))
    for n, d in ((1, 1), (2, 1), (3, 1), (1, 3), (2, 2)) + \
            (((4, 1), (3, 2), (1, 5)) if T else ()):
        out.append(Instance("sequence-%d-%d" % (n, d), sequence(n, d),
                            bounds="%d contexts, %d levels" % (n, d),
                            maxpaths=500))
    for n, d in ((40, 1), (1, 20), (2, 4)):
        out.append(Instance("sequence-long-%d-%d" % (n, d),
                            sequence(n, d, True),
                            bounds="%d contexts, %d levels" % (n, d)))
    for m in (20, 130):
        out.append(Instance("history-long-%d" % m, history(
            ("randn", "rand", "randn") * m, ("rand", "randn") * m,
            ("randn", "rand") * 20), bounds="up to %d draws per part"
            % (3 * m)))
    for k in (1, 2, 3, 40) + ((4, 5) if T else ()):
        out.append(Instance("unwinding-%d" % k, unwinding(k),
                            bounds="%d nested contexts" % k))
    out.append(Instance("refused-seed", refused_seed(), bounds="any seed"))
    out.append(Instance("unseeded", unseeded(), bounds="no seed"))
    for s in (None, True, False):
        for k in ("real", "int"):
            out.append(Instance("positive-%s-%s" % (k, s), positive(k, s),
                                bounds="any number"))
    for s in (True, False):
        out.append(Instance("boundary-%s" % s, boundary(s),
                            bounds="17 numbers"))
    for k in (0, 1, 2) + ((3,) if T else ()):
        out.append(Instance("types-%d" % k, types_(k), bounds="9 values, "
                            "all lists of %d of their types" % k,
                            maxpaths=1000))
    for k in (0, 1, 2, 3):
        for kind in ("int", "real"):
            out.append(Instance("values-%s-%d" % (kind, k), values(k, kind),
                                bounds="%d accepted values" % k))
    for k in (1, 2, 3):
        out.append(Instance("tuples-%d" % k, value_tuples(k),
                            bounds="tuples of %d" % k))
    out.append(Instance("strings", strings(), bounds="5 strings"))
    return out
