"""Ctx: the interface a harness is written against, in its two modes.

SymCtx   - inputs are symbols; branches on symbols fork; goals go to z3
ConcCtx  - the same harness on the unpatched code with concrete inputs
"""
import math
import random
import time
import traceback
from fractions import Fraction

import numpy as np

from . import arr as A
from . import poly as P
from . import state
from .poly import Unsupported
from .solver import Solver


MAXTERMS = 3000


class Infeasible(BaseException):
    pass


class Skip(Exception):
    """concrete run: the drawn inputs violate the harness assumptions"""


class Violation(Exception):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label, self.detail = label, detail


class Stop(BaseException):
    """end of the harness after a recorded symbolic failure"""


# ===================================================================== base
class BaseCtx:
    sym = False

    def named(self, M):
        """large entries by name (option name_terms); the value is the same"""
        return M

    # ---- inputs shared by both modes -------------------------------------
    def reals(self, name, shape, **kw):
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = self.real("%s_%s" % (name, "_".join(map(str, i))), **kw)
        return self.pack(o, "f")

    layout = None    # "F" or "strided": memory layout of the inputs
    integral = False  # real data arrays hold integers

    reuse = None     # name -> array of an earlier run, overwritten by this one

    def serial(self, name):
        """name of the first, second, ... of its kind in this run"""
        d = self.__dict__.setdefault("serials", {})
        d[name] = d.get(name, 0) + 1
        return "%s-%d" % (name, d[name])

    def kept(self, name, make):
        """an object, the one an earlier run used if there is one"""
        if self.reuse is None:
            return make()
        if ("kept", name) not in self.reuse:
            self.reuse["kept", name] = make()
        return self.reuse["kept", name]

    def laid(self, M, name=None):
        """the same array in another memory layout, or written over the one
        an earlier run used"""
        if self.reuse is not None and name is not None and \
                isinstance(M, np.ndarray):
            o = self.reuse.pop(name, None)
            if o is None or o.shape != M.shape or \
                    self.kindof(o) != self.kindof(M):
                return M
            o[...] = M
            return o
        if self.layout is None or not isinstance(M, np.ndarray) or \
                M.ndim == 0 or M.size == 0:
            return M
        k = self.kindof(M)
        if self.layout == "F" and M.ndim > 1:
            r = self.zeros(M.shape[::-1], k).T
        else:
            # every second place of a larger array, backwards
            r = self.zeros(tuple(2 * m for m in M.shape), k)[
                tuple(slice(None, None, -2) for m in M.shape)]
        r[...] = M
        return r

    def ints(self, name, shape, lo=-5, hi=5):
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = self.integer("%s_%s" % (name, "_".join(map(str, i))),
                                lo, hi)
        return self.pack(o, "i")

    def cplx(self, name, shape, **kw):
        if 0 in np.atleast_1d(shape):
            return self.zeros(shape, "c")
        return self.reals(name + "r", shape, **kw) + \
            1j * self.reals(name + "i", shape, **kw)

    wide = None     # (mode, free rows): large inputs, mostly fixed numbers

    def frac(self, a, b=1):
        return A.S(P.rf(Fraction(a, b)), None, "f") if self.sym else a / b

    def wide_data(self, name, shape, cplx, **kw):
        """the rows listed in self.wide are arbitrary, the others are fixed
        numbers that take a few lengths only"""
        k = "c" if cplx else "f"
        X = self.zeros(shape, k)
        lead, p = shape[:-1], shape[-1]
        rows = list(np.ndindex(*lead))
        free = sorted({f % len(rows) for f in self.wide[1]})
        self.wide, w = None, self.wide
        D = self.data(name, (len(free), p), cplx, **kw)
        self.wide = w
        for i, r in enumerate(rows):
            if i in free:
                for j in range(p):
                    X[r + (j,)] = D[free.index(i), j]
                continue
            for j in range(p):
                m = (i + j) % p
                v = (m + 1, (3 * m) % 5 + 1)[i % 2] * \
                    (1, -1, -1)[(i + 2 * j) % 3]
                z = self.frac(v, 2)
                if cplx:
                    z = z * (1, 1j)[(i // 2 + j) % 2]
                X[r + (j,)] = z
        return X

    def wide_basis(self, n, cplx):
        """fixed orthonormal basis without zero pattern"""
        k = "c" if cplx else "f"
        r = self.eye(n, k)
        c, s = self.frac(3, 5), self.frac(4, 5)
        for i in range(n - 1):
            g = self.eye(n, k)
            e = (1, 1j)[i % 2] if cplx else 1
            g[i, i], g[i, i + 1] = c, -s
            g[i + 1, i], g[i + 1, i + 1] = s * e, c * e
            r = r @ g
        return r

    def data(self, name, shape, cplx=False, **kw):
        if self.wide and not isinstance(shape, int) and len(shape) > 1:
            return self.wide_data(name, tuple(shape), cplx, **kw)
        if self.integral and not cplx:
            return self.ints(name, shape, 1 if kw.get("pos") else -4, 4)
        return self.laid(self.cplx(name, shape, **kw) if cplx else
                         self.reals(name, shape, **kw), name)

    def array(self, nested, kind=None):
        if self.sym:
            return A.mk(nested, kind)
        r = np.array(nested)
        if kind:
            r = r.astype(A.DTYPES[kind])
        return r

    def zeros(self, shape, kind="f"):
        return A.full(shape, 0, kind) if self.sym else \
            np.zeros(shape, dtype=A.DTYPES[kind])

    def eye(self, n, kind="f"):
        return A.mk(np.eye(n), kind) if self.sym else \
            np.eye(n, dtype=A.DTYPES[kind])

    def diag(self, xs, kind="f"):
        n = len(xs)
        r = self.zeros((n, n), kind)
        for i in range(n):
            r[i, i] = xs[i]
        return r

    def rot(self, name, cplx=False, n=2):
        """arbitrary element of O(2)/SO(2) (resp. U(2) modulo right phases)
        in rational parametrisation; for n = 3 a product of two/three plane
        rotations"""
        if n == 1:
            return self.eye(1, "c" if cplx else "f")
        if n == 2:
            # (c, s) with s = sqrt(1 - c^2) >= 0, phases in [0, pi]: every
            # orthonormal basis up to signs/phases of its vectors
            c = self.unit(name + "_c")
            s = self.root(1 - c * c)
            if not cplx:
                return self.array([[c, -s], [s, c]], "f")
            u = self.unit(name + "_u")
            e = u + 1j * self.root(1 - u * u)
            return self.array([[c + 0j, -s + 0j], [s * e, c * e]], "c")
        # n == 3: rotate in planes (0,1) and (1,2)
        r = self.eye(3, "c" if cplx else "f")
        for k, (i, j) in enumerate([(0, 1), (1, 2)]):
            g = self.eye(3, "c" if cplx else "f")
            b = self.rot("%s%d" % (name, k), cplx, 2)
            g[i, i], g[i, j], g[j, i], g[j, j] = (b[0, 0], b[0, 1], b[1, 0],
                                                 b[1, 1])
            r = r @ g
        return r

    def spd(self, name, n, cplx=False, how="spec", ret=False):
        """arbitrary (Hermitian) positive definite matrix; every such matrix
        of size <= 2 is reached.  how: 'spec' V diag(r^2) V^H, 'chol' L L^H,
        'diag' diag(r^2)"""
        k = "c" if cplx else "f"
        if how == "chol":
            L = self.zeros((n, n), k)
            for i in range(n):
                for j in range(i):
                    v = self.real("%s_l%d%d" % (name, i, j))
                    if cplx:
                        v = v + 1j * self.real("%s_m%d%d" % (name, i, j))
                    L[i, j] = v
                L[i, i] = self.real("%s_l%d" % (name, i), pos=True)
            M = self.laid(L @ L.conj().T, name)
            return (M, L) if ret else M
        if self.wide and n > 1:
            x = self.real(name + "_r", pos=True, lo=.6, hi=1.6)
            if self.wide[0] == "flat":
                r, V = [x] * n, self.eye(n, k)
            else:
                r = [x] + [self.frac(2 + i, 3) for i in range(n - 1)]
                V = self.wide_basis(n, cplx)
            M = self.hermitise(V @ self.diag([x * x for x in r], k)
                               @ V.conj().T)
            self.register(V)
            M = self.laid(M, name)
            return (M, V, r) if ret else M
        r = [self.real("%s_r%d" % (name, i), pos=True) for i in range(n)]
        if how == "diag" or n == 1:
            V = self.eye(n, k)
        else:
            V = self.rot(name, cplx, n)
        D = self.diag([x * x for x in r], k)
        M = V @ D @ V.conj().T
        M = self.laid(self.hermitise(M), name)
        self.register(V)
        if ret:
            return M, V, r
        return M

    def unit(self, name):
        """arbitrary number of [-1, 1]"""
        c = self.real(name, lo=-0.95, hi=0.95)
        self.assume((c * c <= 1) if self.sym else bool(c * c <= 1))
        return c

    def root(self, x):
        return x.sqrt() if self.sym else np.sqrt(x)

    def hermitise(self, M):
        """exactly Hermitian floating-point matrix in the concrete mode"""
        if self.sym:
            return M
        return (M + M.conj().T) / 2

    def spectral(self, name, n, cplx=False, how="spec", positive=False,
                 lo=-1.2, hi=1.2):
        """arbitrary Hermitian matrix through its eigendecomposition;
        returns (M, V, eigenvalues)"""
        k = "c" if cplx else "f"
        d = [self.real("%s_d%d" % (name, i), pos=positive, lo=lo, hi=hi)
             for i in range(1 if self.wide else n)]
        if self.wide:
            d += [self.frac(2 + i, 3) if positive or i % 2 else
                  self.frac(-2 - i, 5) for i in range(n - 1)]
            V = self.wide_basis(n, cplx)
            M = self.hermitise(V @ self.diag(d, k) @ V.conj().T)
            self.register(V)
            return M, V, d
        V = self.eye(n, k) if how == "diag" or n == 1 else \
            self.rot(name, cplx, n)
        M = self.hermitise(V @ self.diag(d, k) @ V.conj().T)
        self.register(V)
        return self.laid(M, name), V, d

    def herm(self, name, n, cplx=False):
        k = "c" if cplx else "f"
        M = self.zeros((n, n), k)
        if self.wide:
            D = self.data(name, (n, n), cplx)
            return (D + D.conj().T) / 2
        for i in range(n):
            M[i, i] = self.real("%s_%d%d" % (name, i, i))
            for j in range(i):
                v = self.real("%s_%d%d" % (name, i, j))
                if cplx:
                    w = self.real("%s_i%d%d" % (name, i, j))
                    M[i, j] = v + 1j * w
                    M[j, i] = v - 1j * w
                else:
                    M[i, j] = v
                    M[j, i] = v
        return self.laid(M, name)

    def register(self, V):
        pass

    def similar(self, T):
        """T diagonalises matrices met later by similarity"""
        if self.sym:
            self.simbases.append(T.obj())

    def raises(self, excs, fn, label):
        """fn() must raise one of excs"""
        try:
            fn()
        except excs:
            self.note_goal(label)
            return
        except (Unsupported, Infeasible, Stop):
            raise
        except Exception as e:
            self.fail(label, "raised %s instead of %s" % (
                type(e).__name__, excs))
            return
        self.fail(label, "did not raise")

    def note_goal(self, label):
        pass


# ================================================================= concrete
class ConcCtx(BaseCtx):
    sym = False
    np = np

    def __init__(self, values, rng=None, tol=1e-6):
        self.values = dict(values)
        self.rng = rng
        self.tol = tol
        self.goals = []
        self.failures = []

    def draw(self, name, default):
        if self.values.get(name) is None:
            if self.rng is None:
                raise Skip("no value for " + name)
            self.values[name] = default()
        return self.values[name]

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        rng = self.rng

        def d():
            if pos:
                return rng.uniform(lo if lo and lo > 0 else 0.5,
                                   hi if hi else 1.8)
            if nonneg:
                return rng.uniform(lo or 0.0, hi or 1.8)
            x = rng.uniform(lo if lo is not None else -2,
                            hi if hi is not None else 2)
            return x
        v = float(self.draw(name, d))
        return np.float64(v)

    def integer(self, name, lo=-5, hi=5):
        v = self.draw(name, lambda: self.rng.randint(lo, hi))
        v = int(round(v))
        if not lo <= v <= hi:
            raise Skip("integer range")
        return np.int64(v)

    def boolean(self, name):
        return bool(self.draw(name, lambda: self.rng.random() < 0.5))

    def pack(self, o, kind):
        return o.astype(A.DTYPES[kind])

    def assume(self, c):
        if not bool(c):
            raise Skip("assumption")

    def choose(self, name, options):
        """nondeterministic choice among finitely many options"""
        v = self.draw(name, lambda: self.rng.randrange(len(options)))
        v = int(v)
        if not 0 <= v < len(options):
            raise Skip("choice")
        return options[v]

    def fail(self, label, detail=""):
        self.failures.append((label, detail))
        raise Violation(label, detail)

    def equal(self, a, b, label, tol=None):
        self.goals.append(label)
        tol = self.tol if tol is None else tol
        try:
            x, y = np.asarray(a), np.asarray(b)
            if x.shape != y.shape:
                self.fail(label, "shape %s, expected %s" % (x.shape, y.shape))
            if x.dtype == object or y.dtype == object:
                x, y = x.astype(complex), y.astype(complex)
            if x.dtype.kind in "biu":
                x = x.astype(float)
            if y.dtype.kind in "biu":
                y = y.astype(float)
        except (TypeError, ValueError) as e:
            self.fail(label, "not comparable: %s" % e)
        with np.errstate(all="ignore"):
            if np.isnan(y).any() and np.array_equal(np.isnan(x),
                                                    np.isnan(y)):
                raise Skip("undefined at these inputs")
            scale = max([float(np.max(np.abs(v[np.isfinite(v)]))) if
                         v.size and np.isfinite(v).any() else 0.0
                         for v in (x, y)] + [0.0])
            ok = np.all(np.isfinite(x) == np.isfinite(y))
            if ok:
                d = np.abs(x - y)
                d = d[np.isfinite(d)] if d.ndim else d
                m = float(np.max(d)) if np.size(d) else 0.0
                ok = m <= tol * scale + 1e-9
            else:
                m = float("nan")
        if not ok:
            self.fail(label, "|got-expected|=%.3g got=%s expected=%s" % (
                m, short(x), short(y)))

    def true(self, c, label, detail=""):
        self.goals.append(label)
        if not bool(c):
            self.fail(label, detail or "condition is false")

    def le(self, a, b, label):
        """a <= b up to rounding"""
        self.goals.append(label)
        a, b = float(np.real(a)), float(np.real(b))
        if not a <= b + self.tol * (abs(a) + abs(b)) + 1e-9:
            self.fail(label, "%r <= %r fails" % (a, b))

    def positive(self, a, label):
        self.goals.append(label)
        a = float(np.real(a))
        if not a > 0:
            self.fail(label, "%r > 0 fails" % a)

    def kindof(self, a):
        return np.asarray(a).dtype.kind

    def partial(self, fn, name, at=None, order=1):
        """derivative of fn() (rebuilds its inputs from ctx) with respect to
        the input called name, there or at a given value: central
        differences"""
        x0, h, out = self.values[name], 2e-3, 0
        x1 = x0 if at is None else at
        ws = ((-2, 1 / 12), (-1, -8 / 12), (1, 8 / 12), (2, -1 / 12))
        if order == 2:
            ws = ((-2, -1 / 12), (-1, 16 / 12), (0, -30 / 12), (1, 16 / 12),
                  (2, -1 / 12))
        elif order == 0:
            ws = ((0, 1),)
        try:
            for k, w in ws:
                self.values[name] = x1 + k * h
                out = out + np.asarray(fn()) * (w / h ** order)
        finally:
            self.values[name] = x0
        return out


def short(x):
    s = np.array2string(np.asarray(x), precision=5, threshold=12)
    return s.replace("\n", " ")[:200]


# ================================================================= symbolic
class SymCtx(BaseCtx):
    sym = True
    np = np

    def __init__(self, seed, prefix=(), pool=None, opts=None):
        self.K = P.reset()
        self.solver = Solver(seed)
        self.rng = random.Random(seed)
        self.prefix = list(prefix)
        self.trace = []            # decisions taken
        self.pending = []          # alternative prefixes discovered
        self.path = []             # formulas
        self.assumptions = []
        self.domain = []           # recorded definedness conditions
        self.domain_keys = set()
        self.inputs = {}           # name -> Var
        self.ranges = {}
        self.bases = []
        self.simbases = []
        self.goals = []            # (label, status)
        self.fails = []            # (label, env or None, detail)
        self.pool = None
        self.nowit = False         # a witness search failed on this path
        self.opts = opts or {}
        self.qt = self.opts.get("query_timeout", 8.0)
        self.unwitnessed = False
        self.eigcount = 0
        A.CTX[0] = self
        P.SIGN_HOOK[0] = self.sign_hook
        self._sgn = {}
        self.fresh = 0

    # ------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        if name in self.inputs:
            return A.S(P.var(self.inputs[name]), None, "f")
        v = self.K.new(name, kind="base", positive=pos, nonneg=nonneg)
        self.inputs[name] = v
        self.ranges[name] = (lo, hi, pos, nonneg, False)
        return A.S(P.var(v), None, "f")

    def integer(self, name, lo=-5, hi=5):
        if name not in self.inputs:
            v = self.K.new(name, kind="base")
            self.inputs[name] = v
            self.ranges[name] = (lo, hi, False, False, True)
        return A.S(P.var(self.inputs[name]), None, "i")

    def boolean(self, name):
        x = self.real(name, lo=-1, hi=1)
        return bool(x > 0)

    def choose(self, name, options):
        """finite nondeterministic choice: forks"""
        if len(options) == 1:
            return options[0]
        key = ("choose", name)
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            d = 0
            for j in range(1, len(options)):
                self.pending.append(list(self.trace) + [j])
        self.trace.append(d)
        self.choices = getattr(self, "choices", {})
        self.choices[name] = d
        return options[d]

    def pack(self, o, kind):
        return A.mkobj(o, kind)

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise Infeasible()
            return
        self.assumptions.append(c.f)
        self.pool = None

    def named(self, M):
        return A.mkobj(A.named(M.obj()), M.kind)

    def register(self, V):
        self.bases.append(V.obj().copy())

    # -------------------------------------------------------- numeric pool
    def draw_env(self):
        env = {}
        for name, v in self.inputs.items():
            lo, hi, pos, nonneg, isint = self.ranges[name]
            if isint:
                x = self.rng.randint(lo, hi)
            elif pos:
                x = self.rng.uniform(lo if lo and lo > 0 else 0.5,
                                     hi if hi else 1.8)
            elif nonneg:
                x = self.rng.uniform(lo or 0.0, hi or 1.8)
            else:
                x = self.rng.uniform(lo if lo is not None else -2,
                                     hi if hi is not None else 2)
            env[v.idx] = float(x)
        return env

    def ev(self, r, env, magnitude=False):
        cache = env.setdefault("cache", {})
        base = env["env"]
        if len(base) < len(self.inputs):
            for v in self.inputs.values():
                if v.idx not in base:
                    e = self.draw_env()
                    base[v.idx] = e[v.idx]
        return P.evalf(r, base, cache, magnitude)

    def evf(self, f, env):
        t = f[0]
        if t == "cmp":
            x = self.ev(f[2], env)
            return {"<": x < 0, "<=": x <= 0, "==": abs(x) < 1e-13,
                    "!=": abs(x) > 1e-13}[f[1]]
        if t == "and":
            return all(self.evf(x, env) for x in f[1])
        if t == "or":
            return any(self.evf(x, env) for x in f[1])
        return not self.evf(f[1], env)

    def holds(self, env):
        try:
            return all(self.evf(f, env) for f in self.assumptions) and \
                all(self.evf(f, env) for f in self.path) and \
                all(abs(self.ev(r, env)) > 1e-9 for what, r in self.domain
                    if what != ">=0" and len(r.num) <= 200)
        except (ArithmeticError, ZeroDivisionError, OverflowError,
                ValueError):
            return False

    def witnesses(self, n=24, tries=400):
        if self.pool is None:
            self.pool = []
            t = 0
            while len(self.pool) < n and t < tries:
                t += 1
                e = {"env": self.draw_env(), "cache": {}}
                if self.holds(e):
                    self.pool.append(e)
        else:
            self.pool = [e for e in self.pool if self.holds(e)]
        if not self.pool and (self.path or self.assumptions) and not \
                self.nowit:
            e = self.solve_env([], timeout=1.5)
            # the model may rest on values of transcendental functions that
            # the true functions do not take
            if e is None or not self.holds(e):
                self.nowit = True
            else:
                self.pool.append(e)
        return self.pool

    def base_formulas(self, used):
        fs = [self.solver.formula(f, used) for f in self.assumptions]
        fs += [self.solver.formula(f, used) for f in self.path]
        for i in list(used):
            pass
        return fs

    def int_axioms(self, used):
        import z3
        out = []
        for name, v in self.inputs.items():
            lo, hi, _, _, isint = self.ranges[name]
            if isint and v.idx in used:
                x = self.solver.var(v.idx)
                out += [x >= lo, x <= hi, z3.IsInt(x)]
        return out

    def box_axioms(self, used):
        out = []
        for name, v in self.inputs.items():
            if v.idx in used:
                lo, hi, pos, nonneg, isint = self.ranges[name]
                if isint:
                    continue
                x = self.solver.var(v.idx)
                l = lo if lo is not None else (0.25 if pos else -3)
                h = hi if hi is not None else 3
                if nonneg:
                    l = max(l, 0)
                out += [x >= self.solver.const(Fraction(l).limit_denominator(
                    1000)), x <= self.solver.const(
                        Fraction(h).limit_denominator(1000))]
        return out

    def solve_env(self, formulas, timeout=None, pin=()):
        """model of assumptions+path+formulas as an env, or None"""
        used = set()
        if self.solver.size(self.path + list(formulas)) > MAXTERMS:
            self.last = "unknown"
            return None
        fs = self.base_formulas(used)
        fs += [self.solver.formula(f, used) for f in formulas]
        fs += self.domain_formulas(used)
        fs += self.int_axioms(used)
        r, m = self.solver.check(fs + self.box_axioms(used), used,
                                 timeout or self.qt, True)
        self.last = r
        if r != "sat":
            r2, m = self.solver.check(fs, used, timeout or self.qt, True)
            self.last = r2
            if r2 != "sat":
                return None
        e = self.draw_env()
        for name, v in self.inputs.items():
            if v.idx in used:
                x = self.solver.model_value(m, v.idx)
                if x is None:
                    return None
                e[v.idx] = x
        return {"env": e, "cache": {}, "fromz3": True}

    def domain_formulas(self, used):
        """quantities the code divides by are not zero"""
        return [self.solver.formula(("cmp", "!=", r), used)
                for what, r in self.domain
                if what != ">=0" and self.solver.nterms(r) <= 40][:40]

    # ------------------------------------------------------------ branches
    warming = None   # environment of an earlier run (warm.py)

    def decide(self, b):
        f = b.f
        if self.warming is not None:
            return bool(self.evf(f, self.warming))
        if f[0] == "cmp":
            k = self.known_branch(f)
            if k is not None:
                return k
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.trace.append(d)
            self.path.append(f if d else neg(f))
            self.filter()
            return bool(d)
        pool = self.witnesses()
        vals = set()
        for e in pool:
            try:
                vals.add(bool(self.evf(f, e)))
            except (ArithmeticError, ZeroDivisionError, OverflowError,
                    ValueError):
                pass
            if len(vals) == 2:
                break
        feas = {True: True in vals, False: False in vals}
        for d in (True, False):
            if feas[d]:
                continue
            g = f if d else neg(f)
            e = self.solve_env([g], timeout=self.opts.get("branch_timeout", 1.0))
            if e is not None:
                feas[d] = True
                self.pool.append(e)
            elif self.last == "unknown":
                feas[d] = None
        opts = [d for d in (True, False) if feas[d] is not False]
        if not opts:
            raise Infeasible()
        d = opts[0]
        if len(opts) == 2:
            # prefer a witnessed branch first
            if not feas[d] and feas[not d]:
                d = not d
            self.pending.append(list(self.trace) + [int(not d)])
        self.trace.append(int(d))
        self.path.append(f if d else neg(f))
        self.filter()
        return d

    def known_branch(self, f):
        """truth value already fixed by the path (same normal form)"""
        op, r = f[1], f[2]
        k, nk = r.key(), P.rneg(r).key()
        for g in self.path + self.assumptions:
            if g[0] != "cmp":
                continue
            gk = g[2].key()
            if gk == k:
                t = {("<", "<"): True, ("<", "<="): True, ("<=", "<="): True,
                     ("==", "=="): True, ("!=", "!="): True,
                     ("==", "!="): False, ("!=", "=="): False,
                     ("<", "=="): False, ("<", "!="): True,
                     ("==", "<"): False, ("==", "<="): True}.get((g[1], op))
                if t is not None:
                    return t
            elif gk == nk:
                t = {("<", "<"): False, ("<", "<="): False,
                     ("<=", "<"): False, ("==", "=="): True,
                     ("!=", "!="): True, ("==", "<"): False,
                     ("==", "<="): True, ("<", "=="): False,
                     ("<", "!="): True}.get((g[1], op))
                if t is not None:
                    return t
        return None

    def same_terms(self, negs):
        """hypotheses comparing the same polynomials as the goal"""
        ks = set()
        for f in negs:
            if f[0] == "cmp":
                ks.update((f[2].key(), P.rneg(f[2]).key()))
        return [g for g in self.path + self.assumptions
                if g[0] == "cmp" and g[2].key() in ks]

    def filter(self):
        if self.pool is not None:
            self.pool = [e for e in self.pool if self.holds(e)]

    # --------------------------------------------------------- definedness
    def nonzero(self, s):
        if s.re.const() is not None and s.kind != "c":
            return
        r = s.re if s.kind != "c" else P.radd(
            P.rmul(s.re, s.re), P.rmul(A.im_(s), A.im_(s)))
        if A.rf_sign(r) in (1, -1):
            return
        self.add_domain("!=", r)

    def require(self, r, what):
        c = r.const()
        if c is not None:
            if (c < 0) or (c == 0 and what == ">0"):
                raise A.SymNaN("invalid value (%s required)" % what)
            return
        s = A.rf_sign(r)
        if s in (1,) or (s == 2 and what == ">=0"):
            return
        self.add_domain(what, r)

    def add_domain(self, what, r):
        if self.warming is not None:
            return
        k = (what, r.key())
        if k in self.domain_keys:
            return
        self.domain_keys.add(k)
        self.domain.append((what, r))
        # refuted on every witness: the real code produces NaN there
        if what in (">=0", ">0"):
            bad = n = 0
            for e in self.witnesses()[:8]:
                try:
                    x = self.ev(r, e)
                except Exception:
                    continue
                n += 1
                if x < -1e-9:
                    bad += 1
            if bad:
                self.nan_domain = getattr(self, "nan_domain", 0) + 1

    def sign_hook(self, p):
        key = frozenset(p.items())
        if key in self._sgn:
            return self._sgn[key]
        self._sgn[key] = None
        r = P.RF(p)
        vals = set()
        try:
            for e in (self.pool or self.witnesses())[:12]:
                x = self.ev(r, e)
                vals.add(1 if x > 0 else -1 if x < 0 else 0)
        except Exception:
            return None
        if len(vals) != 1 or len(p) > 60:
            return None
        s = vals.pop()
        if s == 0:
            return None
        used = set()
        fs = self.base_formulas(used)
        rf = r if s < 0 else P.rneg(r)   # claim: rf < 0 ; query: rf >= 0
        fs.append(self.solver.formula(
            ("not", ("cmp", "<", rf)), used))
        fs += self.int_axioms(used)
        res, _ = self.solver.check(fs, used, 1.0)
        if res == "unsat":
            self._sgn[key] = s
        return self._sgn[key]

    # ---------------------------------------------------------------- eigh
    def eigh(self, M):
        n = M.shape[0]
        o = M.obj()
        kind = A.kmax(M.kind, "f")
        if kind != M.kind:
            o = M.astype(A.DTYPES[kind]).obj()
        # LAPACK reads one triangle and the real part of the diagonal
        L = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                if i == j:
                    L[i, i] = o[i, i].real.up(kind)
                elif i > j:
                    L[i, j] = o[i, j]
                    L[j, i] = o[i, j].conj()
        o = L
        zero = A.S(P.rf(0), None, kind)
        offzero = all(o[i, j].is_zero() for i in range(n) for j in range(i))
        if offzero:
            d = [o[i, i].real for i in range(n)]
            V = A.mk(np.eye(n), kind)
            return A.wrap(np.array(d + [None], dtype=object)[:-1], "f"), V
        for B in reversed(self.bases):
            if B.shape != o.shape:
                continue
            if kind == "f" and B[0, 0].kind == "c":
                continue
            if not self.num_diag(o, B):
                continue
            Bm, Om = A.mkobj(B, B[0, 0].kind), A.mkobj(o, kind)
            D = A.f_matmul(A.f_matmul(Bm.conj().T, Om), Bm).obj()
            if all(D[i, j].zero_deep() for i in range(n) for j in range(n)
                   if i != j):
                d = A.wrap(np.array([D[i, i].real for i in range(n)] + [None],
                                    dtype=object)[:-1], "f")
                return d, A.mkobj(B.copy(), kind) if B[0, 0].kind == kind \
                    else A.mkobj(B.copy(), B[0, 0].kind).astype(
                        A.DTYPES[kind])
        # havoc: some orthonormal basis, memoised on the matrix
        if n != 2:
            raise Unsupported("eigh of a general %dx%d matrix" % (n, n))
        self.eigcount += 1
        args = [o[0, 0].re, o[1, 0].re, A.im_(o[1, 0]), o[1, 1].re]
        l0, l1, t, u = [P.uf_atom("eig2_" + nm, args)
                        for nm in ("l0", "l1", "t", "u")]
        f = lambda r: A.S(r, None, "f")
        t, u = f(t), f(u)
        c = (1 - t * t) / (1 + t * t)
        s = 2 * t / (1 + t * t)
        V = np.empty((2, 2), dtype=object)
        if kind == "c":
            e = (1 - u * u) / (1 + u * u) + 1j * (2 * u / (1 + u * u))
            V[0, 0], V[0, 1] = c.up("c"), (-s).up("c")
            V[1, 0], V[1, 1] = s * e, c * e
        else:
            V[0, 0], V[0, 1], V[1, 0], V[1, 1] = c, -s, s, c
        self.bases.append(V)
        d = np.empty(2, dtype=object)
        d[0], d[1] = f(l0), f(l1)
        return A.mkobj(d, "f"), A.mkobj(V.copy(), kind)

    def num_diag(self, o, B):
        try:
            es = self.witnesses()[:2]
            if not es:
                return True
            for e in es:
                ev = np.vectorize(lambda s: self.ev(s.re, e) + (
                    1j * self.ev(s.im, e) if s.kind == "c" else 0),
                    otypes=[complex])
                Om, Bm = ev(o), ev(B)
                D = Bm.conj().T @ Om @ Bm
                off = D - np.diag(np.diag(D))
                if np.abs(off).max() > 1e-8 * (np.abs(D).max() + 1e-12):
                    return False
            return True
        except Exception:
            return True

    def qr(self, M):
        if M.ndim != 2 or M.shape[0] != M.shape[1]:
            raise Unsupported("qr")
        n = M.shape[0]
        if n > 3:
            raise Unsupported("qr size")
        self.fresh += 1
        Q = self.rot("qr%d" % self.fresh, M.kind == "c", n)
        self.register(Q)
        R = A.f_matmul(Q.conj().T, M)
        return Q, R

    # --------------------------------------------------------------- goals
    def note_goal(self, label):
        self.goals.append((label, "discharged"))

    def fail(self, label, detail=""):
        self.fails.append((label, None, detail))
        raise Stop()

    def env_inputs(self, env):
        out = {n: env["env"].get(v.idx) for n, v in self.inputs.items()}
        out.update(getattr(self, "choices", {}))
        return out

    def equal(self, a, b, label, tol=None):
        try:
            x, y = A.to_obj(a), A.to_obj(b)
        except (TypeError, ValueError) as e:
            self.fail(label, "not comparable: %s" % e)
        if x.shape != y.shape:
            self.fail(label, "shape %s, expected %s" % (x.shape, y.shape))
        pairs = []
        for i in np.ndindex(*x.shape):
            p, q = x[i], y[i]
            p, q = (A.S_(p) if not isinstance(p, A.S) else p,
                    A.S_(q) if not isinstance(q, A.S) else q)
            if isinstance(p, A.SInf) or isinstance(q, A.SInf):
                if not (isinstance(p, A.SInf) and isinstance(q, A.SInf)
                        and p.s == q.s):
                    self.fail(label, "infinite value")
                continue
            pairs.append((p.re, q.re))
            if p.kind == "c" or q.kind == "c":
                pairs.append((A.im_(p), A.im_(q)))
        self.prove_equal(pairs, label)

    def same_square(self, a, b, d):
        """both sides not negative and their squares equal"""
        if not d.av and not any(
                P.K.vars[i].kind == "uf" and P.K.vars[i].meta[0] == "norm2"
                for m in d.num for i, _ in P.exps(m)):
            return False
        if not (P.nonneg(a) and P.nonneg(b)):
            return False
        try:
            return P.is_zero_deep(P.rsub(P.unfold_norms(P.rmul(a, a)),
                                         P.unfold_norms(P.rmul(b, b))))
        except Unsupported:
            return False

    def prove_equal(self, pairs, label):
        diffs = [P.rsub(p, q) for p, q in pairs]
        nz = [d for d in diffs if d.num]
        if nz and any(P.defvars(d) for d in nz):
            # named divisors: try the exact expansion unless a witness
            # already separates the two sides
            negs = [("cmp", "!=", d) for d in nz]
            sep = False
            for e in self.witnesses()[:4]:
                try:
                    sep = sep or any(self.violates(f, e) for f in negs)
                except Exception:
                    pass
            if not sep:
                t0 = time.time()
                out = []
                flat = P.unify([x for p, q in pairs for x in (p, q)])
                nz = [d for a, b in zip(flat[::2], flat[1::2])
                      for d in [P.rsub(a, b)]
                      if d.num and not self.same_square(a, b, d)]
                for d in nz:
                    if time.time() - t0 < 60:
                        try:
                            d = P.expand(d)
                        except Unsupported:
                            pass
                    if d.num:
                        out.append(d)
                nz = out
                if not nz:
                    self.zero_query(pairs, label, diffs)
                    return
        elif nz and not any(self.separated(d) for d in nz):
            nz = [d for (a, b), d in zip(pairs, diffs)
                  if d.num and not self.same_square(a, b, d)]
            if not nz:
                self.zero_query(pairs, label, diffs)
                return
        if nz and not any(self.separated(d) for d in nz):
            # logarithms: sum k_i log e_i = 0 follows from prod e_i^k_i = 1
            lem = []
            for d in nz:
                l = self.log_lemmas(d)
                if l is None:
                    break
                lem += l
            else:
                self.prove_equal(lem, label)
                return
        if not nz:
            # identical normal forms: let z3 redo the cross-multiplication
            used = set()
            ors = []
            import z3
            tot = 0
            for p, q in pairs:
                if p.const() is not None and q.const() is not None:
                    continue
                w = self.solver.nterms(p, q)
                cross = max(len(p.num), 1) * max(
                    1, sum(len(P.K.factors[f]) for f in q.den)) + max(
                        len(q.num), 1) * max(
                            1, sum(len(P.K.factors[f]) for f in p.den))
                if tot + cross > 600:
                    continue
                tot += cross
                np_, dp = self.solver.numden(p, used)
                nq, dq = self.solver.numden(q, used)
                lhs = np_ * dq if dq is not None else np_
                rhs = nq * dp if dp is not None else nq
                ors.append(lhs != rhs)
            # terms too large to re-expand: the canonical difference itself
            ors.append(z3.RealVal(0) != self.solver.poly({}, used))
            self.solver.st.max_terms = max(self.solver.st.max_terms, tot)
            r, _ = self.solver.check([z3.Or(ors)], used, self.qt)
            if r == "sat":
                raise Unsupported("normal form disagrees with z3")
            self.goals.append((label, "discharged" if r == "unsat"
                               else "normal-form"))
            return
        self.refute_or_prove([("cmp", "!=", d) for d in nz], label)

    def separated(self, d):
        f = ("cmp", "!=", d)
        for e in self.witnesses()[:4]:
            try:
                if self.violates(f, e):
                    return True
            except Exception:
                pass
        return False

    def log_lemmas(self, d):
        """pairs of log-free terms whose equality implies d = 0, or None"""
        V = P.K.vars
        groups = {}
        for m, c in d.num.items():
            logs = [(i, e) for i, e in P.exps(m) if V[i].kind == "log"]
            if len(logs) != 1 or logs[0][1] != 1:
                return None
            i = logs[0][0]
            groups.setdefault(m - P.mono(i, 1), {})[i] = Fraction(c)
        out = []
        for g in groups.values():
            q = 1
            for c in g.values():
                q = q * c.denominator // math.gcd(q, c.denominator)
            ks = {i: int(c * q) for i, c in g.items()}
            while ks:
                for c in sorted({abs(k) for k in ks.values()}, reverse=True):
                    # c times the sum of +-log over the larger coefficients
                    one = {i: 1 if k > 0 else -1 for i, k in ks.items()
                           if abs(k) >= c}
                    pr = self.log_product(one)
                    if pr:
                        break
                else:
                    c, one = 1, ks
                    pr = self.log_product(ks)
                    if not pr:
                        return None
                out.append(pr)
                ks = {i: k - c * one.get(i, 0) for i, k in ks.items()
                      if k != c * one.get(i, 0)}
        return out

    def log_product(self, ks):
        """the products of the arguments with positive and with negative
        exponents, if they are equal"""
        V = P.K.vars
        l, r = P.rf(1), P.rf(1)
        try:
            for i, k in ks.items():
                if abs(k) > 12 and V[i].meta.const() is None:
                    return None
                if k > 0:
                    l = P.rmul(l, P.rpow(V[i].meta, k))
                else:
                    r = P.rmul(r, P.rpow(V[i].meta, -k))
            if not P.is_equal(l, r):
                d = P.rsub(l, r)
                if self.separated(d) or not P.expand(d).is_zero():
                    return None
        except Unsupported:
            return None
        return l, r

    def zero_query(self, pairs, label, diffs):
        """the two sides agree once the named divisors are expanded: z3
        decides the statement with the divisors' definitions as hypotheses
        when it is small enough"""
        import z3
        used = set()
        if self.solver.nterms(*diffs) <= 400:
            fs = [z3.Or([self.solver.rel(d, "!=", used) for d in diffs
                         if d.num])]
            r, _ = self.solver.check(fs, used, self.qt)
            if r == "unsat":
                self.goals.append((label, "discharged"))
                return
        r, _ = self.solver.check(
            [z3.RealVal(0) != self.solver.poly({}, used)], used, self.qt)
        self.goals.append((label, "normal-form"))

    def refute_or_prove(self, negs, label):
        """goal = none of the formulas negs is satisfiable"""
        neg_ = negs[0] if len(negs) == 1 else ("or", negs)
        # 1. concrete witnesses handed to the solver as pinned queries
        for e in self.witnesses()[:10]:
            try:
                bad = any(self.violates(f, e) for f in negs)
            except Exception:
                continue
            if bad:
                self.solver.st.queries += 0
                self.confirm_pinned(neg_, e)
                self.fails.append((label, e, "solver counterexample"))
                self.goals.append((label, "refuted"))
                raise Stop()
        # 2. only the hypotheses about the same quantities
        near = self.same_terms(negs)
        if near:
            used = set()
            fs = [self.solver.formula(f, used) for f in near + [neg_]]
            r, _ = self.solver.check(fs, set(), 2.0)
            if r == "unsat":
                self.goals.append((label, "discharged"))
                return
        # 3. the full query
        used = set()
        if self.solver.size(list(negs)) > 4 * MAXTERMS:
            self.goals.append((label, "unknown"))
            return
        fs = self.base_formulas(used)
        fs.append(self.solver.formula(neg_, used))
        fs += self.int_axioms(used)
        r, m = self.solver.check(fs, used, self.qt * 3, True)
        if r == "sat" and self.domain:
            # with the definedness hypotheses
            ds = [d for d in self.domain
                  if self.solver.nterms(d[1]) <= 40][:40]
            for what, x in ds:
                op = {"!=": "!=", ">0": "<", ">=0": "<="}[what]
                fs.append(self.solver.formula(
                    ("cmp", op, x if op == "!=" else P.rneg(x)), used))
            r, m = self.solver.check(fs, used, self.qt * 3, True)
        if r == "unsat":
            self.goals.append((label, "discharged"))
            return
        if r == "sat":
            e = self.draw_env()
            for name, v in self.inputs.items():
                if v.idx in used:
                    x = self.solver.model_value(m, v.idx)
                    if x is not None:
                        e[v.idx] = x
            self.fails.append((label, {"env": e, "cache": {}},
                               "solver counterexample"))
            self.goals.append((label, "refuted"))
            raise Stop()
        self.goals.append((label, "unknown"))

    def violates(self, f, e):
        if f[0] == "cmp":
            x, s = self.ev(f[2], e, True)
            if f[1] == "!=":
                return abs(x) > 1e-7 * max(1.0, s)
            return x < -1e-9
        return self.evf(f, e)

    def confirm_pinned(self, f, e):
        """solver query with the inputs fixed to the witness"""
        used = set()
        fs = [self.solver.formula(f, used)]
        self.solver.axioms(used)
        fs = [self.solver.formula(f, used)]
        pins = []
        for name, v in self.inputs.items():
            if v.idx in used:
                pins.append(self.solver.var(v.idx) == self.solver.const(
                    Fraction(e["env"][v.idx]).limit_denominator(10 ** 6)))
        r, _ = self.solver.check(fs, used, 4.0, False, pins)
        return r

    def partial(self, fn, name, at=None, order=1):
        """derivative of fn() with respect to an input, exactly"""
        r = fn()
        v = self.inputs[name]

        def dr(x):
            for _ in range(order):
                x = P.diff(x, v)
            return x if at is None else P.subst(x, v, P.rf(at))

        def d(s):
            s = A.S_(s)
            if s.kind == "c":
                return A.S(dr(s.re), dr(A.im_(s)), "c")
            return A.S(dr(s.re), None, "f")
        if isinstance(r, A.SymArray):
            return A.umap(d, r, "c" if r.kind == "c" else "f")
        return d(r)

    def true(self, c, label, detail=""):
        if isinstance(c, A.SymArray):
            c = c.obj().reshape(-1)[0]
        if isinstance(c, A.SymBool):
            if c.f[0] == "cmp" and c.f[1] == "==":
                self.refute_or_prove([("cmp", "!=", c.f[2])], label)
            else:
                self.refute_or_prove([neg(c.f)], label)
            return
        if not bool(c):
            self.fail(label, detail or "condition is false")
        self.goals.append((label, "discharged"))

    def le(self, a, b, label):
        self.true(A.S_(a).real <= A.S_(b).real, label)

    def positive(self, a, label):
        self.true(A.S_(a).real > 0, label)

    def kindof(self, a):
        if isinstance(a, (A.SymArray, A.S)):
            return a.kind
        return np.asarray(a).dtype.kind


def neg(f):
    r = A.b_not(A.SymBool(f))
    return r.f


# numeric evaluators of the havoc eigendecomposition
def _eig2(which):
    def g(a, br, bi, d):
        M = np.array([[a, br - 1j * bi], [br + 1j * bi, d]])
        w, V = np.linalg.eigh(M)
        if which == "l0":
            return float(w[0])
        if which == "l1":
            return float(w[1])
        v = V[:, 0]
        ph = v[0] / abs(v[0]) if abs(v[0]) > 1e-14 else 1.0
        v = v / ph
        c = v[0].real
        s = v[1]
        phi = np.angle(s)
        sgn = 1.0
        if phi > np.pi / 2:
            phi -= np.pi
            sgn = -1.0
        elif phi <= -np.pi / 2:
            phi += np.pi
            sgn = -1.0
        th = np.arctan2(sgn * abs(s), c)
        return float(np.tan(th / 2)) if which == "t" else float(
            np.tan(phi / 2))
    return g


for _n in ("l0", "l1", "t", "u"):
    P.UF_EVAL["eig2_" + _n] = _eig2(_n)


# ============================================================ exploration
class Result:
    def __init__(self):
        self.status = "holds"
        self.paths = 0
        self.decisions = 0
        self.goals = 0
        self.discharged = 0
        self.queries = 0
        self.unsat = self.sat = self.unknown = 0
        self.solver_time = 0.0
        self.replays = 0
        self.validated = 0
        self.domain = 0
        self.violations = []      # dict(label, inputs, detail)
        self.notes = []
        self.samples = []
        self.max_terms = 0
        self.wall = 0.0
        self.normalform = 0
        self.labels = {}


def run_concrete(fn, values, seed=0, draw=True, tries=60, tol=1e-6):
    """harness on the unpatched code; returns (ok, ctx, label, detail)"""
    rng = random.Random(seed)
    for _ in range(tries if draw and not values else 1):
        c = ConcCtx(values, rng if draw else None, tol)
        old = A.CTX[0]
        A.CTX[0] = None
        state.reset()
        try:
            with np.errstate(all="ignore"):
                fn(c)
            return True, c, None, None
        except Skip:
            continue
        except Violation as v:
            return False, c, v.label, v.detail
        except Unsupported as u:
            return None, c, "unsupported", str(u)
        except Exception as e:
            return False, c, "exception", "%s: %s" % (
                type(e).__name__, str(e)[:300])
        finally:
            A.CTX[0] = old
    return None, None, None, None


def explore(fn, seed=1, maxpaths=64, budget=200.0, opts=None, validate=3,
            shim=None):
    """symbolic exploration of one harness instance"""
    res = Result()
    t0 = time.time()
    todo = [[]]
    candidates = []
    seen_inconclusive = []
    witnessed = 0
    while todo:
        if res.paths >= maxpaths or time.time() - t0 > budget:
            seen_inconclusive.append("path/time budget exhausted with %d "
                                     "prefixes left" % len(todo))
            break
        prefix = todo.pop()
        ctx = SymCtx(seed, prefix, opts=opts)
        state.reset()
        err = None
        stopped = False
        try:
            with shim():
                with np.errstate(all="ignore"):
                    fn(ctx)
        except Stop:
            stopped = True
        except Infeasible:
            todo.extend(ctx.pending)
            continue
        except Unsupported as u:
            err = ("unsupported", str(u))
        except (RecursionError, MemoryError) as e:
            err = ("unsupported", type(e).__name__)
        except A.SymNaN as e:
            err = ("exception", "NaN: " + str(e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            err = ("exception", "%s: %s (%s:%d)" % (
                type(e).__name__, str(e)[:200], tb.filename.split("/")[-1],
                tb.lineno))
            if opts and opts.get("trace"):
                traceback.print_exc()
        todo.extend(ctx.pending)
        res.paths += 1
        res.decisions += len(ctx.trace)
        st = ctx.solver.st
        res.domain = max(res.domain, len(ctx.domain))
        for l, s in ctx.goals:
            res.goals += 1
            res.labels.setdefault(l, {})
            res.labels[l][s] = res.labels[l].get(s, 0) + 1
            if s == "discharged":
                res.discharged += 1
            elif s == "normal-form":
                res.discharged += 1
                res.normalform += 1
            elif s == "unknown":
                seen_inconclusive.append("solver unknown: " + l)
        # reachability witness of this path, replayed on the real code
        wit = []
        try:
            wit = ctx.witnesses()[:validate]
        except Exception as e:
            res.notes.append("witness: %s" % e)
        if wit:
            witnessed += 1
        for l, e, d in ctx.fails:
            if e is not None:
                candidates.append((l, ctx.env_inputs(e), d))
            for w in wit:
                candidates.append((l, ctx.env_inputs(w), d))
            if not wit and e is None:
                candidates.append((l, {}, d))
        if err is not None:
            for w in wit:
                candidates.append((err[0], ctx.env_inputs(w), err[1]))
            if not wit:
                candidates.append((err[0], {}, err[1]))
        if not ctx.fails and err is None:
            for w in wit:
                vals = ctx.env_inputs(w)
                ok, c, l, d = run_concrete(fn, vals, seed)
                if ok is None:
                    continue
                res.replays += 1
                if ok:
                    res.validated += 1
                    if len(res.samples) < 2:
                        res.samples.append({k: round(float(v), 6)
                                            for k, v in vals.items()
                                            if v is not None})
                else:
                    res.violations.append(dict(
                        label=l, inputs=vals, detail=d +
                        " [found by replaying a path witness]"))
                    break
        st = ctx.solver.st
        res.queries += st.queries
        res.unsat += st.unsat
        res.sat += st.sat
        res.unknown += st.unknown
        res.solver_time += st.time
        res.max_terms = max(res.max_terms, st.max_terms)
        if res.violations:
            break
        if candidates and (ctx.fails or err):
            # a narrower type loses digits: look at them in the replay
            low = err is not None and "reduced precision" in err[1]
            if confirm(fn, candidates, res, seed, 2e-9 if low else 1e-6):
                break
            if err is not None and err[0] == "unsupported":
                seen_inconclusive.append("unsupported: " + err[1])
            else:
                c = candidates[-1]
                seen_inconclusive.append(
                    "counterexample does not reproduce: %s (%s)" % (
                        c[0], c[2]))
            candidates = []
    if not witnessed and not res.violations:
        seen_inconclusive.append("no reachability witness for any path")
    if res.violations:
        res.status = "violation"
    elif seen_inconclusive:
        res.status = "inconclusive"
        res.notes = seen_inconclusive[:6] + res.notes
    if res.status == "holds" and res.goals == 0:
        res.status = "inconclusive"
        res.notes.append("no goal reached")
    res.wall = time.time() - t0
    return res


def confirm(fn, candidates, res, seed, tol=1e-6):
    for k, (l, vals, d) in enumerate(candidates[:12]):
        ok, c, l2, d2 = run_concrete(fn, vals, seed + k, tol=tol)
        if ok is None:
            continue
        res.replays += 1
        if not ok:
            res.violations.append(dict(
                label=l2, inputs={k_: v for k_, v in c.values.items()},
                detail=d2, tol=tol))
            return True
    return False
