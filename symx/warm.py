"""Runs of a harness after earlier runs: what the code computed before (for
other values, for another kind of data) must not show in what it computes
now.  The earlier run takes fixed numbers and checks nothing."""
import os
import zlib

from . import core


DEBUG = os.environ.get("SYMX_WARM")


class _End(Exception):
    pass


class WarmCtx(core.BaseCtx):
    """inputs are fixed numbers, assertions are not looked at"""
    def __init__(self, inner, short=False):
        self.inner = inner
        self.short = short
        self.sym = inner.sym
        self.wide = None
        self.reuse = None

    def __getattr__(self, k):
        return getattr(self.inner, k)

    def kept(self, name, make):
        return self.inner.kept(name, make)

    def laid(self, M, name=None):
        if self.inner.reuse is not None and name is not None:
            self.inner.reuse.setdefault(name, M)
        return M

    def code(self, name):
        return zlib.crc32(name.encode())

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        if pos or nonneg:
            lo = lo if lo and lo > 0 else .5
            hi = hi if hi else 1.8
        lo = -2 if lo is None else lo
        hi = 2 if hi is None else hi
        a, b = round(lo * 64), round(hi * 64)
        n = b - a - 1
        v = a + 1 + self.code(name) % n if n > 0 else a
        if v == 0:
            v = 1 if b > 0 else -1
        return self.number(v)

    def number(self, v):
        return self.frac(v, 64) if self.sym else core.np.float64(v / 64)

    def integer(self, name, lo=-5, hi=5):
        v = lo + self.code(name) % (hi - lo + 1)
        return core.A.S(core.P.rf(v), None, "i") if self.sym else \
            core.np.int64(v)

    def boolean(self, name):
        return self.code(name) % 2 == 0

    def choose(self, name, options):
        return options[self.code(name) % len(options)]

    def pack(self, o, kind):
        return self.inner.pack(o, kind)

    def assume(self, c):
        if not bool(c):
            raise _End()

    def named(self, M):
        return M

    def register(self, V):
        return self.inner.register(V)

    def similar(self, T):
        return self.inner.similar(T)

    def partial(self, fn, name, at=None, order=1):
        return fn()

    def raises(self, excs, fn, label):
        try:
            fn()
        except Exception:
            pass

    def checked(self, *a, **kw):
        """where the harness looks at what was computed"""
        if self.short:
            raise _End()

    equal = true = le = positive = checked

    def fail(self, label, detail=""):
        pass

    def note_goal(self, label):
        pass


def again(fn, *before, inplace=False, short=False):
    """fn after runs of the harnesses `before`; inplace: the last run's input
    arrays are overwritten and used again; short: the earlier runs end where
    they would first check a result"""
    def h(ctx):
        if inplace:
            ctx.reuse = {}
        for g in before:
            try:
                if ctx.sym:
                    ctx.warming = {"env": ctx.draw_env(), "cache": {}}
                g(WarmCtx(ctx, short))
            except Exception as e:
                if DEBUG:
                    with open(DEBUG, "a") as f:
                        f.write("%s %s: %s\n" % (ctx.sym, type(e).__name__,
                                                 str(e)[:200]))
            finally:
                if ctx.sym:
                    ctx.warming = None
        return fn(ctx)
    return h


def setting(fn, **kw):
    """fn with attributes of the context set"""
    def h(ctx):
        for k, v in kw.items():
            setattr(ctx, k, v)
        return fn(ctx)
    return h
