"""Symbolic numpy values: S (scalar), SymBool and SymArray.

SymArray is an ndarray subclass with object storage; numpy's own ufunc
(NEP 13) and function (NEP 18) dispatch routes every numpy call made by the
code under analysis to the exact operations below.
"""
import itertools
import math
from fractions import Fraction

import numpy as np

from . import poly as P
from .poly import RF, Unsupported

ORDER = {"b": 0, "i": 1, "f": 2, "c": 3}
DTYPES = {"b": np.dtype(bool), "i": np.dtype("int64"),
          "f": np.dtype("float64"), "c": np.dtype("complex128")}
CTX = [None]


def kmax(*ks):
    return max(ks, key=ORDER.get)


def kind_of_dtype(dt):
    dt = np.dtype(dt)
    k = dt.kind
    if k == "u":
        k = "i"
    if k not in ORDER:
        if k == "O":
            return None
        raise Unsupported("dtype %s" % dt)
    if dt.itemsize < DTYPES[k].itemsize:
        raise Unsupported("reduced precision dtype %s" % dt)
    return k


# ---------------------------------------------------------------- constants
_fc = {}


def frac_of_float(x):
    """rational (or sqrt of rational) intended by a double constant"""
    x = float(x)
    if x in _fc:
        return _fc[x]
    if math.isnan(x) or math.isinf(x):
        raise Unsupported("non finite constant %r" % x)
    f = Fraction(x)
    out = None
    if x == int(x) and abs(x) < 2 ** 53:
        out = (Fraction(int(x)), False)
    else:
        for lim in (1000, 100000):
            g = f.limit_denominator(lim)
            if g != 0 and abs(g - f) <= abs(f) * Fraction(4, 2 ** 52):
                out = (g, False)
                break
        if out is None:
            g0 = f * f
            g = g0.limit_denominator(1000)
            if g != 0 and abs(g - g0) <= abs(g0) * Fraction(8, 2 ** 52):
                out = (g, True)
        if out is None:
            out = (f, False)
    _fc[x] = out
    return out


def rf_of_number(x):
    if isinstance(x, (bool, np.bool_)):
        return P.rf(int(x))
    if isinstance(x, (int, np.integer)):
        return P.rf(int(x))
    if isinstance(x, Fraction):
        return P.rf(x)
    v, root = frac_of_float(x)
    if not root:
        return P.rf(v)
    r = P.rsqrt(P.rf(v))
    return r if x >= 0 else P.rneg(r)


NUMS = (int, float, complex, np.number, bool, np.bool_, Fraction)


def S_(x):
    """coerce to S"""
    if isinstance(x, S):
        return x
    if isinstance(x, SymBool):
        return S(P.rf(int(bool(x))), None, "i")
    if isinstance(x, SymArray) and x.ndim == 0:
        return x.obj()[()]
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return S_(x[()])
    if isinstance(x, (bool, np.bool_)):
        return S(P.rf(int(x)), None, "b")
    if isinstance(x, (complex, np.complexfloating)):
        return S(rf_of_number(x.real), rf_of_number(x.imag), "c")
    if isinstance(x, (int, np.integer)):
        return S(P.rf(int(x)), None, "i")
    if isinstance(x, (float, np.floating)):
        if math.isinf(x):
            return SInf(1 if x > 0 else -1)
        return S(rf_of_number(x), None, "f")
    if isinstance(x, Fraction):
        return S(P.rf(x), None, "f")
    raise Unsupported("cannot lift %r" % type(x))


ZERO = None


# ------------------------------------------------------------------ booleans
class SymBool:
    """formula: ('cmp', rel, RF) | ('and', [..]) | ('or', [..]) | ('not', f)"""
    __slots__ = ("f",)
    dtype = DTYPES["b"]
    shape = ()
    ndim = 0

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return CTX[0].decide(self)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))
    __rxor__ = __xor__

    def logical_not(self):
        return b_not(self)

    def all(self, *a, **k):
        return self
    any = all

    def __eq__(self, o):
        return b_not(self ^ _b(o))

    def __ne__(self, o):
        return self ^ _b(o)
    __hash__ = object.__hash__

    # numeric use of a boolean concretises it
    def _n(self):
        return S(P.rf(int(bool(self))), None, "i")

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return S_(o) - self._n()

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def astype(self, t):
        return S_(bool(self)).astype(t)

    def item(self):
        return bool(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return do_function(func, args, kw)


def _b(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (S, SymArray)):
        return S_(x) != 0
    return bool(x)


def b_not(x):
    x = _b(x)
    if isinstance(x, bool):
        return not x
    if x.f[0] == "not":
        return SymBool(x.f[1])
    if x.f[0] == "cmp":
        rel, r = x.f[1:]
        if rel == "==":
            return SymBool(("cmp", "!=", r))
        if rel == "!=":
            return SymBool(("cmp", "==", r))
        if rel == "<":
            return SymBool(("cmp", "<=", P.rneg(r)))
        return SymBool(("cmp", "<", P.rneg(r)))
    return SymBool(("not", x.f))


def _junct(tag, absorb, xs):
    out = []
    for x in xs:
        x = _b(x)
        if isinstance(x, bool):
            if x is absorb:
                return absorb
            continue
        if x.f[0] == tag:
            out.extend(x.f[1])
        else:
            out.append(x.f)
    if not out:
        return not absorb
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool((tag, out))


def b_and(*xs):
    return _junct("and", False, xs)


def b_or(*xs):
    return _junct("or", True, xs)


def rel(r, op):
    """r op 0, op in < <= == != ; returns bool or SymBool"""
    c = r.const()
    if c is not None:
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
    if op in ("<", "<="):
        s = rf_sign(r)
        if s == 1:
            return False
        if s == -1:
            return True
        if s == 2 and op == "<":      # nonneg
            return False
        if s == -2 and op == "<=":    # nonpos
            return True
    else:
        s = rf_sign(r)
        if s in (1, -1):
            return op == "!="
    r = canon_cmp(op, r)
    c = r.const()
    if c is not None:
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
    return SymBool(("cmp", op, r))


def strict_sign_poly(p):
    """1/-1 strictly signed, 2/-2 weakly signed, None unknown (syntactic)"""
    pos = neg = True
    strict = False
    for m, c in p.items():
        st = True
        for i, e in P.exps(m):
            v = P.K.vars[i]
            if v.positive:
                continue
            st = False
            if e % 2 and not v.nonneg:
                return None
        if st:
            strict = True
        if c < 0:
            pos = False
        else:
            neg = False
        if not pos and not neg:
            return None
    if pos:
        return 1 if strict else 2
    return -1 if strict else -2


def rf_sign(r):
    s = strict_sign_poly(r.num)
    if s is None:
        return None
    if s in (2, -2) and len(r.den) == 1 and len(r.num) > 1:
        # num = k * den + rest with rest of the same weak sign: |r| >= k > 0
        (f, e), = r.den.items()
        F = P.K.factors[f]
        if e == 1 and len(F) <= len(r.num):
            ok = all(m in r.num and (r.num[m] > 0) == (s > 0)
                     and (c > 0) == (F_sign(F) > 0) for m, c in F.items())
            if ok and F_sign(F):
                s = 1 if s > 0 else -1
    for f, e in r.den.items():
        if e % 2:
            t = strict_sign_poly(P.K.factors[f])
            if t is None:
                return None
            if t < 0:
                s = -s
    return s


def F_sign(F):
    t = strict_sign_poly(F)
    return 0 if t is None else (1 if t > 0 else -1)


def canon_cmp(op, r):
    """equivalent comparison without positive divisors, or r itself"""
    flip = False
    num = r.num
    for f, e in r.den.items():
        F = P.K.factors[f]
        t = F_sign(F)
        if e % 2:
            if t == 0:
                return r
            if t < 0:
                flip = not flip
    out = P.RF({m: (-c if flip else c) for m, c in num.items()}, None, r.av)
    ds = P.defvars(out)
    if ds and all(P.K.vars[i].positive for i in ds) and len(num) <= 60:
        mul = 0
        for i in ds:
            lo = min(P.expof(m, i) for m in num)
            if lo < 0:
                mul += P.mono(i, -lo)
        if mul:
            out = P.rmul(out, P.RF({mul: 1}, None))
        try:
            e = P.expand(out, 200)
            if not e.den and len(e.num) <= 120:
                out = e
        except Unsupported:
            pass
    if not out.num or out.den:
        return out
    c, m, q = P.split_poly(out.num)
    if c < 0:
        q = {k: -v for k, v in q.items()}
    keep = 0
    for i, e in P.exps(m):
        v = P.K.vars[i]
        if v.positive:
            continue
        if op in ("==", "!="):
            keep += P.mono(i, 1)
        else:
            keep += P.mono(i, e)
    if keep:
        q = P.pmul(q, {keep: 1})
    if op in ("==", "!=") and q[max(q)] < 0:
        q = {k: -v for k, v in q.items()}
    return P.RF(q, None)


# ------------------------------------------------------------------- scalars
class S:
    __slots__ = ("re", "im", "kind")
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, re, im=None, kind="f"):
        self.re = re
        if kind == "c":
            self.im = im if im is not None else P.rf(0)
        else:
            self.im = None
        self.kind = kind

    # -- numpy-scalar protocol
    @property
    def dtype(self):
        return DTYPES[self.kind]

    @property
    def real(self):
        return S(self.re, None, "f" if self.kind == "c" else self.kind)

    @property
    def imag(self):
        return S(self.im if self.im is not None else P.rf(0), None,
                 "f" if self.kind == "c" else self.kind)

    @property
    def T(self):
        return self

    def conj(self):
        return S(self.re, P.rneg(self.im), "c") if self.kind == "c" else self
    conjugate = conj

    def item(self):
        return self

    def copy(self):
        return self

    def squeeze(self, *a):
        return self

    def sum(self, *a, **k):
        return self

    def flatten(self):
        return mk([self])
    ravel = flatten

    def reshape(self, *shape, **k):
        return mk([self]).reshape(*shape, **k)

    def astype(self, t, **k):
        return cast(self, kind_of_dtype(t))

    def __repr__(self):
        if self.kind == "c":
            return "S(%s + i*(%s))" % (P.show(self.re), P.show(self.im))
        return "S(%s)" % P.show(self.re)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling of symbolic values")

    def up(self, kind):
        if self.kind == kind:
            return self
        return S(self.re, self.im, kind)

    def const(self):
        c = self.re.const()
        if c is None:
            return None
        if self.kind == "c":
            d = self.im.const()
            if d is None:
                return None
            if d != 0:
                return (c, d)
        return c

    def is_zero(self):
        return self.re.is_zero() and (self.im is None or self.im.is_zero())

    def zero_deep(self):
        return P.is_zero_deep(self.re) and (
            self.im is None or P.is_zero_deep(self.im))

    # -- arithmetic
    def __add__(self, o):
        o = co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SInf):
            return o
        k = kmax(self.kind, o.kind)
        if k == "c":
            return S(P.radd(self.re, o.re), P.radd(im_(self), im_(o)), "c")
        return S(P.radd(self.re, o.re), None, "i" if k == "b" else k)
    __radd__ = __add__

    def __sub__(self, o):
        o = co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SInf):
            return -o
        k = kmax(self.kind, o.kind)
        if k == "c":
            return S(P.rsub(self.re, o.re), P.rsub(im_(self), im_(o)), "c")
        return S(P.rsub(self.re, o.re), None, "i" if k == "b" else k)

    def __rsub__(self, o):
        o = co(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        o = co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SInf):
            raise Unsupported("inf times symbol")
        k = kmax(self.kind, o.kind)
        if k == "c":
            a, b, c, d = self.re, im_(self), o.re, im_(o)
            return S(P.rsub(P.rmul(a, c), P.rmul(b, d)),
                     P.radd(P.rmul(a, d), P.rmul(b, c)), "c")
        return S(P.rmul(self.re, o.re), None, "i" if k == "b" else k)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SInf):
            return S(P.rf(0), None, "f")
        k = kmax(self.kind, o.kind, "f")
        if o.is_zero():
            raise SymNaN("division by zero")
        CTX[0] and CTX[0].nonzero(o)
        if k == "c":
            if o.kind == "c" and not o.im.is_zero():
                n = P.radd(P.rmul(o.re, o.re), P.rmul(o.im, o.im))
                i = P.rinv(n)
                t = self * o.conj()
                t = t.up("c")
                return S(P.rmul(t.re, i), P.rmul(t.im, i), "c")
            i = P.rinv(o.re)
            t = self.up("c")
            return S(P.rmul(t.re, i), P.rmul(t.im, i), "c")
        return S(P.rdiv(self.re, o.re), None, k)

    def __rtruediv__(self, o):
        o = co(o)
        if o is None:
            return NotImplemented
        return o / self

    def __floordiv__(self, o):
        q = self / o
        c = q.const()
        if c is None:
            raise Unsupported("floor division")
        return S(P.rf(math.floor(c)), None, kmax(self.kind, S_(o).kind))

    def __mod__(self, o):
        c, d = self.const(), S_(o).const()
        if c is None or d is None:
            raise Unsupported("modulo")
        return S(P.rf(c - d * math.floor(Fraction(c) / d)), None,
                 kmax(self.kind, S_(o).kind))

    def __neg__(self):
        return S(P.rneg(self.re), P.rneg(self.im) if self.kind == "c"
                 else None, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.kind == "c":
            if self.im.is_zero():
                return abs(self.real)
            return S(sqrt_pos(P.radd(P.rmul(self.re, self.re),
                                     P.rmul(self.im, self.im))), None, "f")
        s = rf_sign(self.re)
        if s is not None:
            return self if s > 0 else -self
        return S(sqrt_pos(P.rmul(self.re, self.re)), None, self.kind)

    def __pow__(self, o):
        o = co(o)
        if o is None:
            return NotImplemented
        return s_pow(self, o)

    def __rpow__(self, o):
        o = co(o)
        if o is None:
            return NotImplemented
        return s_pow(o, self)

    # -- numpy object-loop method names
    def sqrt(self):
        if self.kind == "c":
            if self.im.is_zero():
                if self.re.is_zero():
                    return self
                if bool(rel(P.rneg(self.re), "<=")):
                    return S(sqrt_pos(self.re), None, "c")
                return S(P.rf(0), sqrt_pos(P.rneg(self.re)), "c")
            n = sqrt_pos(P.radd(P.rmul(self.re, self.re),
                                P.rmul(self.im, self.im)))
            h = P.rf(Fraction(1, 2))
            a = sqrt_pos(P.rmul(h, P.radd(n, self.re)))
            b = sqrt_pos(P.rmul(h, P.rsub(n, self.re)))
            if bool(rel(self.im, "<")):
                b = P.rneg(b)
            return S(a, b, "c")
        CTX[0] and CTX[0].require(self.re, ">=0")
        return S(P.rsqrt(self.re), None, "f")

    def log(self):
        if self.kind == "c":
            if self.im.is_zero():
                if bool(rel(P.rneg(self.re), "<")):
                    return S(P.rlog(self.re), None, "c")
            raise Unsupported("complex logarithm")
        CTX[0] and CTX[0].require(self.re, ">0")
        return S(P.rlog(self.re), None, "f")

    def exp(self):
        if self.kind == "c":
            if self.im.is_zero():
                return S(P.rexp(self.re), None, "c")
            raise Unsupported("complex exponential")
        return S(P.rexp(self.re), None, "f")

    def square(self):
        return self * self

    def isfinite(self):
        return True

    def isnan(self):
        return False
    isinf = isnan

    # -- comparisons
    def _cmp(self, o, op):
        o = co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SInf):
            return {"<": o.s > 0, "<=": o.s > 0, ">": o.s < 0,
                    ">=": o.s < 0}[op]
        if self.kind == "c" or o.kind == "c":
            if not (im_(self).is_zero() and im_(o).is_zero()):
                raise Unsupported("ordering of complex numbers")
        d = P.rsub(self.re, o.re)
        if op == "<":
            return rel(d, "<")
        if op == "<=":
            return rel(d, "<=")
        if op == ">":
            return rel(P.rneg(d), "<")
        return rel(P.rneg(d), "<=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        o = co(o)
        if o is None:
            return False
        if isinstance(o, SInf):
            return False
        return b_and(rel(P.rsub(self.re, o.re), "=="),
                     rel(P.rsub(im_(self), im_(o)), "=="))

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __hash__(self):
        return hash((self.re.key(), None if self.im is None
                     else self.im.key()))

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        c = self.re.const()
        if c is None or (self.kind == "c" and not self.im.is_zero()):
            raise Unsupported("float() of a symbolic value")
        return float(c)

    def __int__(self):
        c = self.re.const()
        if c is None and all(P.K.vars[i].kind == "alg"
                             for i in P.all_vars(self.re)):
            # irrational constant
            x = P.evalf(self.re, {})
            if abs(x - round(x)) > 1e-9:
                return int(x)
        if c is None:
            raise Unsupported("int() of a symbolic value")
        return int(c)

    def __index__(self):
        c = self.re.const()
        if c is None or c != int(c) or self.kind not in "bi":
            raise Unsupported("index from a symbolic value")
        return int(c)

    def __complex__(self):
        c = self.const()
        if c is None:
            raise Unsupported("complex() of a symbolic value")
        return complex(*[float(v) for v in c]) if isinstance(c, tuple) \
            else complex(float(c))

    def __round__(self, n=None):
        c = self.re.const()
        if c is None:
            raise Unsupported("round() of a symbolic value")
        return round(float(c), n)

    def __matmul__(self, o):
        raise ValueError("matmul: Input operand 0 does not have enough "
                         "dimensions")

    def __len__(self):
        raise TypeError("object of type 'numpy.float64' has no len()")

    def __getitem__(self, k):
        if k == ():
            return self
        if k is None or k is Ellipsis or isinstance(k, tuple):
            return mk0(self)[k]
        raise IndexError("invalid index to scalar variable.")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return do_function(func, args, kw)


class SInf(S):
    """+-inf constant (only compared / used as a bound)"""
    __slots__ = ("s",)

    def __init__(self, s):
        super().__init__(P.rf(0), None, "f")
        self.s = s

    def __neg__(self):
        return SInf(-self.s)

    def _cmp(self, o, op):
        return {"<": self.s < 0, "<=": self.s < 0, ">": self.s > 0,
                ">=": self.s > 0}[op]

    def __add__(self, o):
        return self
    __radd__ = __add__
    __sub__ = __add__

    def __mul__(self, o):
        raise Unsupported("inf arithmetic")
    __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (float, np.floating)):
            return bool(o == math.inf * self.s)
        return isinstance(o, SInf) and o.s == self.s

    def __ne__(self, o):
        return not self == o
    __hash__ = object.__hash__

    def exp(self):
        return self if self.s > 0 else S(P.rf(0), None, "f")

    def log(self):
        raise Unsupported("log of infinity")
    sqrt = log

    def __float__(self):
        return math.inf * self.s

    def isfinite(self):
        return False

    def isinf(self):
        return True

    def __repr__(self):
        return "SInf(%d)" % self.s


class SymNaN(Exception):
    """the computation produces a NaN/inf on every input of this path"""


def im_(s):
    return s.im if s.im is not None else P.rf(0)


def co(o):
    if isinstance(o, S):
        return o
    if isinstance(o, SymArray):
        return None if o.ndim else o.obj()[()]
    if isinstance(o, (SymBool,) + NUMS):
        return S_(o)
    return None


def sqrt_pos(r):
    return P.rsqrt(r)


def s_pow(a, b):
    c = b.const()
    if isinstance(c, tuple):
        raise Unsupported("complex exponent")
    k = kmax(a.kind, b.kind)
    if c is not None:
        c = Fraction(c)
        if c.denominator == 1:
            e = int(c)
            if e < 0 and k == "i":
                raise ValueError(
                    "Integers to negative integer powers are not allowed.")
            if a.kind == "c":
                r = S(P.rf(1), None, "c")
                for _ in range(abs(e)):
                    r = r * a
                return r if e >= 0 else S(P.rf(1), None, "c") / r
            if e < 0:
                if a.is_zero():
                    raise SymNaN("0 ** negative")
                CTX[0] and CTX[0].nonzero(a)
            return S(P.rpow(a.re, e), None, k)
        if a.kind == "c":
            if not a.im.is_zero():
                raise Unsupported("fractional power of a complex number")
            if not bool(rel(P.rneg(a.re), "<")):
                raise Unsupported("fractional power of a complex number")
        else:
            CTX[0] and CTX[0].require(a.re, ">=0" if c > 0 else ">0")
        r = P.rpow(P.rroot(a.re, c.denominator), c.numerator)
        return S(r, None, kmax(k, "f"))
    if k == "c":
        raise Unsupported("complex power")
    CTX[0] and CTX[0].require(a.re, ">0")
    return S(P.rexp(P.rmul(b.re, P.rlog(a.re))), None, "f")


def cast(s, kind):
    """numpy 'unsafe' cast of a scalar"""
    if kind is None or s.kind == kind:
        return s
    if ORDER[s.kind] < ORDER[kind]:
        return s.up(kind)
    if kind == "f":
        return S(s.re, None, "f")
    if kind == "b":
        return s != 0
    # to int: truncation
    c = s.re.const()
    if c is not None:
        return S(P.rf(int(c)), None, "i")
    return S(P.uf_atom("trunc", [s.re]), None, "i")


P.UF_EVAL["trunc"] = lambda x: float(math.trunc(x))


# -------------------------------------------------------------------- arrays
class SymArray(np.ndarray):
    """object ndarray of S / SymBool with an emulated dtype"""
    __array_priority__ = 1001

    def __new__(cls, obj, kind):
        a = np.asarray(obj, dtype=object).view(cls)
        a._kind = kind
        return a

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, "_kind", None)

    def obj(self):
        return np.ndarray.view(self, np.ndarray)

    @property
    def dtype(self):
        return DTYPES[self._kind or "f"]

    @property
    def kind(self):
        return self._kind or "f"

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.itemsize * self.size

    def __reduce__(self):
        raise Unsupported("pickling of symbolic arrays")

    def __deepcopy__(self, memo):
        return mkobj(self.obj().copy(), self.kind)

    def __repr__(self):
        return "SymArray(kind=%s, shape=%s)" % (self._kind, self.shape)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return do_function(func, args, kw)

    # -- indexing
    def __getitem__(self, key):
        r = self.obj()[index(key)]
        if isinstance(r, np.ndarray):
            return mkobj(r, self.kind)
        return r

    def __setitem__(self, key, val):
        key = index(key)
        o = self.obj()
        k = self.kind
        if isinstance(val, (list, tuple)):
            val = mk(val)
        if isinstance(val, np.ndarray):
            v = to_obj(val)
            w = np.empty(v.shape, dtype=object)
            for i in np.ndindex(*v.shape):
                w[i] = store(v[i], k)
            if v.ndim == 0:
                w = w[()]
                tgt = o[key]
                if isinstance(tgt, np.ndarray):
                    fill(o, key, w)
                    return
            o[key] = w
        else:
            w = store(val, k)
            tgt = o[key]
            if isinstance(tgt, np.ndarray):
                fill(o, key, w)
            else:
                o[key] = w

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(self.obj().reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size != 1:
            raise TypeError("only size-1 arrays can be converted")
        return float(self.obj().reshape(-1)[0])

    def __int__(self):
        return int(self.obj().reshape(-1)[0])

    def __index__(self):
        return self.obj().reshape(-1)[0].__index__()

    def __complex__(self):
        return complex(self.obj().reshape(-1)[0])

    def __contains__(self, x):
        return bool((self == x).any())

    # -- attributes
    @property
    def real(self):
        if self.kind != "c":
            return self
        return umap(lambda s: s.real, self, "f")

    @real.setter
    def real(self, v):
        im = self.imag
        self[...] = v + 1j * im if self.kind == "c" else v

    @property
    def imag(self):
        return umap(lambda s: s.imag, self,
                    "f" if self.kind == "c" else self.kind)

    @imag.setter
    def imag(self, v):
        self[...] = self.real + 1j * v

    @property
    def H(self):
        raise AttributeError("'numpy.ndarray' object has no attribute 'H'")

    @property
    def flat(self):
        return mkobj(self.obj().reshape(-1), self.kind)

    def conj(self, *a, **k):
        if self.kind != "c":
            return self
        return umap(lambda s: s.conj(), self, "c")
    conjugate = conj

    def astype(self, dtype, order="K", casting="unsafe", subok=True,
               copy=True):
        k = kind_of_dtype(dtype)
        if k is None:
            k = self.kind
        return umap(lambda s: store(s, k), self, k)

    def item(self, *a):
        if a:
            return self.obj().item(*a)
        if self.size != 1:
            raise ValueError("can only convert an array of size 1")
        return self.obj().reshape(-1)[0]

    def tolist(self):
        return self.obj().tolist()

    def copy(self, order="C"):
        return mkobj(self.obj().copy(order), self.kind)

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return self
        if a or k:
            raise Unsupported("reinterpreting view")
        return mkobj(self.obj(), self.kind)

    def fill(self, v):
        self[...] = v

    def tobytes(self, *a):
        raise Unsupported("tobytes")

    def sort(self, *a, **k):
        r = f_sort(self, *a, **k)
        self.obj()[...] = r.obj()

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return f_sum(self, axis, dtype, out, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return f_prod(self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return f_mean(self, axis, keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return f_var(self, axis, ddof, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.sqrt(f_var(self, axis, ddof, keepdims))

    def all(self, axis=None, out=None, keepdims=False):
        return f_all(self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return f_any(self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return f_minmax(self, axis, keepdims, 1)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return f_minmax(self, axis, keepdims, -1)

    def argmax(self, axis=None, **k):
        return f_arg(self, axis, 1)

    def argmin(self, axis=None, **k):
        return f_arg(self, axis, -1)

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return f_trace(self, offset, axis1, axis2)

    def dot(self, b, out=None):
        return f_dot(self, b)

    def cumsum(self, axis=None, dtype=None, out=None):
        return wrap(np.cumsum(self.obj(), axis=axis), self.kind)

    def nonzero(self):
        return concretize_mask(self != 0 if self.kind != "b" else
                               self).nonzero()

    def take(self, indices, axis=None, out=None, mode="raise"):
        return wrap(self.obj().take(np.asarray(indices), axis=axis,
                                    mode=mode), self.kind)

    def round(self, *a, **k):
        raise Unsupported("rounding")


def fill(o, key, w):
    tgt = o[key]
    tmp = np.empty(tgt.shape, dtype=object)
    for i in np.ndindex(*tgt.shape):
        tmp[i] = w
    o[key] = tmp


def index(key):
    if isinstance(key, tuple):
        return tuple(index1(k) for k in key)
    return index1(key)


def index1(k):
    if isinstance(k, SymArray):
        if k.kind == "b":
            return concretize_mask(k)
        return np.array([int(x.__index__()) for x in k.obj().reshape(-1)],
                        dtype=int).reshape(k.shape)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, S):
        return k.__index__()
    if isinstance(k, slice):
        return slice(*[x.__index__() if isinstance(x, S) else x
                       for x in (k.start, k.stop, k.step)])
    if isinstance(k, list):
        return [index1(x) for x in k]
    return k


def concretize_mask(a):
    o = a.obj()
    out = np.zeros(o.shape, dtype=bool)
    for i in np.ndindex(*o.shape):
        out[i] = bool(o[i])
    return out


def store(v, kind):
    """value as written into an array of the given kind"""
    if isinstance(v, (SymBool, bool, np.bool_)):
        if kind == "b":
            return v if isinstance(v, SymBool) else bool(v)
        return S_(v).up(kind)
    if isinstance(v, SymArray):
        if v.size != 1:
            raise ValueError("setting an array element with a sequence.")
        v = v.obj().reshape(-1)[0]
        return store(v, kind)
    v = S_(v)
    if isinstance(v, SInf):
        return v
    if v.kind == "c" and kind in "fi":
        # numpy: element assignment of a complex scalar raises TypeError;
        # array assignment discards the imaginary part
        return cast(S(v.re, None, "f"), kind)
    return cast(v, kind)


def mkobj(o, kind):
    a = np.ndarray.view(o, SymArray) if type(o) is np.ndarray else \
        np.asarray(o, dtype=object).view(SymArray)
    a._kind = kind
    return a


def elem_kind(e):
    if isinstance(e, S):
        return e.kind
    if isinstance(e, (SymBool, bool, np.bool_)):
        return "b"
    return S_(e).kind


def wrap(o, kind=None):
    """object ndarray or element -> SymArray / S"""
    if not isinstance(o, np.ndarray):
        if isinstance(o, (S, SymBool, bool, np.bool_)):
            return o
        if isinstance(o, NUMS):
            return S_(o)
        return o
    if type(o) is SymArray:
        o = o.obj()
    if o.dtype != object:
        return o
    ks = set()
    flat = o.reshape(-1)
    for e in flat:
        ks.add(elem_kind(e))
    k = kmax(*ks) if ks else (kind or "f")
    if ks and "b" in ks and len(ks) > 1:
        k = kmax(k, "i")
    if len(ks) != 1 or any(not isinstance(e, (S, SymBool, bool))
                           for e in flat):
        w = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape):
            w[i] = store(o[i], k)
        o = w
    return mkobj(o, k)


def to_obj(x):
    """anything array-like -> plain object ndarray of S (or bools)"""
    if isinstance(x, SymArray):
        return x.obj()
    if isinstance(x, (S, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            w = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                e = x[i]
                w[i] = e if isinstance(e, (S, SymBool)) else S_(e)
            return w
        w = np.empty(x.shape, dtype=object)
        isb = x.dtype == bool
        for i in np.ndindex(*x.shape):
            w[i] = bool(x[i]) if isb else S_(x[i])
        return w
    if isinstance(x, NUMS):
        a = np.empty((), dtype=object)
        a[()] = bool(x) if isinstance(x, (bool, np.bool_)) else S_(x)
        return a
    if isinstance(x, (list, tuple)):
        parts = [to_obj(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object)
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError("setting an array element with a sequence. "
                             "inhomogeneous shape")
        out = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p[()]
        return out
    raise Unsupported("cannot convert %r to an array" % type(x))


def mk(x, kind=None):
    """array-like -> SymArray (fresh storage)"""
    if isinstance(x, SymArray):
        r = x.copy()
    else:
        o = to_obj(x)
        r = wrap(o.copy() if o.ndim else o)
        if not isinstance(r, SymArray):
            a = np.empty((), dtype=object)
            a[()] = r
            r = mkobj(a, elem_kind(r))
    if kind is not None and r.kind != kind:
        r = r.astype(DTYPES[kind])
    return r


def mk0(s):
    a = np.empty((), dtype=object)
    a[()] = s
    return mkobj(a, elem_kind(s))


def unwrap0(a):
    if isinstance(a, SymArray) and a.ndim == 0:
        return a.obj()[()]
    return a


def umap(f, a, kind=None):
    o = a.obj()
    w = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape):
        w[i] = f(o[i])
    if kind is None:
        return wrap(w, a.kind)
    return mkobj(w, kind)


def is_sym(x):
    if isinstance(x, (S, SymArray, SymBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_sym(e) for e in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(e, (S, SymBool)) for e in x.reshape(-1))
    return False


# -------------------------------------------------------------------- ufuncs
def _min(a, b):
    return a if bool(a <= b) else b


def _max(a, b):
    return a if bool(a >= b) else b


def _lg(a):
    return S_(a).log()


def _fl(f):
    def g(a):
        a = S_(a)
        return f(a.up("f") if a.kind in "bi" else a)
    return g


def s_sign(a):
    a = S_(a)
    if bool(a > 0):
        return S(P.rf(1), None, a.kind)
    if bool(a < 0):
        return S(P.rf(-1), None, a.kind)
    return S(P.rf(0), None, a.kind)


def s_trig(name):
    def g(a):
        a = S_(a)
        c = a.const()
        if c is not None and not isinstance(c, tuple):
            if c == 0:
                return S(P.rf(1 if name in ("cos", "cosh") else 0))
        raise Unsupported(name)
    return g


def _unum(op):
    return lambda a, b: op(S_(a), S_(b))


UF = {
    np.add: _unum(lambda a, b: a + b),
    np.subtract: _unum(lambda a, b: a - b),
    np.multiply: _unum(lambda a, b: a * b),
    np.true_divide: _unum(lambda a, b: a / b),
    np.floor_divide: _unum(lambda a, b: a // b),
    np.remainder: _unum(lambda a, b: a % b),
    np.power: _unum(s_pow),
    np.float_power: _unum(s_pow),
    np.negative: lambda a: -S_(a),
    np.positive: lambda a: S_(a),
    np.absolute: lambda a: abs(S_(a)),
    np.fabs: lambda a: abs(S_(a)),
    np.conjugate: lambda a: S_(a).conj(),
    np.sqrt: _fl(lambda a: a.sqrt()),
    np.log: _fl(lambda a: a.log()),
    np.log2: _fl(lambda a: a.log() / S_(2).up("f").log()),
    np.log10: _fl(lambda a: a.log() / S_(10).up("f").log()),
    np.log1p: _fl(lambda a: (a + 1).log()),
    np.expm1: _fl(lambda a: a.exp() - 1),
    np.exp: _fl(lambda a: a.exp()),
    np.square: lambda a: S_(a) * S_(a),
    np.reciprocal: lambda a: 1.0 / S_(a),
    np.minimum: _unum(_min),
    np.maximum: _unum(_max),
    np.fmin: _unum(_min),
    np.fmax: _unum(_max),
    np.sign: s_sign,
    np.less: lambda a, b: S_(a) < S_(b),
    np.less_equal: lambda a, b: S_(a) <= S_(b),
    np.greater: lambda a, b: S_(a) > S_(b),
    np.greater_equal: lambda a, b: S_(a) >= S_(b),
    np.equal: lambda a, b: S_(a) == S_(b),
    np.not_equal: lambda a, b: S_(a) != S_(b),
    np.logical_and: lambda a, b: b_and(a, b),
    np.logical_or: lambda a, b: b_or(a, b),
    np.logical_not: lambda a: b_not(a),
    np.logical_xor: lambda a, b: _b(a) ^ _b(b) if isinstance(
        _b(a), SymBool) else (b_not(b) if _b(a) else _b(b)),
    np.isfinite: lambda a: S_(a).isfinite(),
    np.isnan: lambda a: S_(a).isnan(),
    np.isinf: lambda a: S_(a).isinf(),
    np.sin: s_trig("sin"), np.cos: s_trig("cos"),
    np.sinh: s_trig("sinh"), np.cosh: s_trig("cosh"),
    np.hypot: _unum(lambda a, b: (a * a + b * b).sqrt()),
}
UF[np.bitwise_and] = UF[np.logical_and]
UF[np.bitwise_or] = UF[np.logical_or]
UF[np.bitwise_xor] = UF[np.logical_xor]
UF[np.invert] = UF[np.logical_not]
BOOLOUT = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal,
           np.not_equal, np.logical_and, np.logical_or, np.logical_not,
           np.logical_xor, np.isfinite, np.isnan, np.isinf, np.bitwise_and,
           np.bitwise_or, np.bitwise_xor, np.invert}


BOX = [()]


def do_ufunc(ufunc, method, inputs, kw):
    if any(isinstance(x, BOX[0]) for x in inputs):
        return NotImplemented
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        out = out[0]
    where = kw.pop("where", True)
    dtype = kw.pop("dtype", None)
    for k in ("casting", "order", "subok"):
        kw.pop(k, None)
    if where is not True:
        raise Unsupported("ufunc where=")
    if method == "__call__":
        if ufunc is np.matmul:
            r = f_matmul(*inputs)
        else:
            f = UF.get(ufunc)
            if f is None:
                raise Unsupported("ufunc " + ufunc.__name__)
            try:
                objs = [to_obj(x) for x in inputs]
            except Unsupported:
                if any(isinstance(x, str) or x is None for x in inputs) and \
                        ufunc in (np.equal, np.not_equal):
                    return ufunc is np.not_equal
                return NotImplemented
            b = np.broadcast(*objs) if len(objs) > 1 else None
            shape = b.shape if b is not None else objs[0].shape
            w = np.empty(shape, dtype=object)
            if len(objs) == 1:
                for i in np.ndindex(*shape):
                    w[i] = f(objs[0][i])
            else:
                objs = [np.broadcast_to(o, shape) for o in objs]
                for i in np.ndindex(*shape):
                    w[i] = f(*[o[i] for o in objs])
            if shape == ():
                r = w[()]
                if out is None:
                    return r
                r = mk0(r)
            elif ufunc in BOOLOUT:
                r = mkobj(w, "b")
            else:
                kk = kmax(*[x.kind if isinstance(x, SymArray) else
                            (elem_kind(o.reshape(-1)[0]) if o.size else "f")
                            for x, o in zip(inputs, objs)])
                r = wrap(w, kk)
    elif method == "reduce":
        axis = kw.pop("axis", 0)
        keep = kw.pop("keepdims", False)
        kw.pop("initial", None)
        a = mk_noc(inputs[0])
        if ufunc is np.add:
            r = f_sum(a, axis, dtype, None, keep)
        elif ufunc is np.multiply:
            r = f_prod(a, axis, keep)
        elif ufunc is np.maximum:
            r = f_minmax(a, axis, keep, 1)
        elif ufunc is np.minimum:
            r = f_minmax(a, axis, keep, -1)
        elif ufunc is np.logical_and:
            r = f_all(a, axis, keep)
        elif ufunc is np.logical_or:
            r = f_any(a, axis, keep)
        else:
            raise Unsupported("reduce of " + ufunc.__name__)
    elif method == "outer":
        a, b = [mk_noc(x) for x in inputs]
        r = ufunc(a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == "accumulate" and ufunc is np.add:
        a = mk_noc(inputs[0])
        r = wrap(np.cumsum(a.obj(), axis=kw.get("axis", 0)), a.kind)
    elif method == "at" and ufunc is np.add:
        a, idx, v = inputs
        a[idx] = a[idx] + v
        return None
    else:
        raise Unsupported("ufunc method %s.%s" % (ufunc.__name__, method))
    if out is not None:
        if not isinstance(out, SymArray):
            raise Unsupported("symbolic result into a concrete array")
        rk = r.kind if isinstance(r, SymArray) else elem_kind(r)
        if ORDER[rk] > ORDER[out.kind] and not (out.kind == "b"):
            raise TypeError(
                "Cannot cast ufunc '%s' output from %s to %s with casting "
                "rule 'same_kind'" % (ufunc.__name__, DTYPES[rk], out.dtype))
        ro = to_obj(r)
        if ro.shape != out.shape:
            ro = np.broadcast_to(ro, out.shape)
        out[...] = mkobj(np.array(ro, dtype=object), rk) if ro.ndim else \
            ro[()]
        return out
    if dtype is not None and isinstance(r, (S, SymArray)):
        r = r.astype(dtype)
    return r


def mk_noc(x):
    """as SymArray without copying storage"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, (S, SymBool)):
        return mk0(x)
    r = wrap(to_obj(x))
    return r if isinstance(r, SymArray) else mk0(r)


# --------------------------------------------------------------- reductions
def axes_of(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    out = []
    for x in axis:
        x = int(x)
        if not -a.ndim <= x < a.ndim:
            raise np.AxisError(x, a.ndim)
        out.append(x % a.ndim)
    return tuple(out)


def reduce_(a, axis, keep, fold, empty=None):
    o = a.obj()
    ax = axes_of(a, axis)
    rest = [i for i in range(o.ndim) if i not in ax]
    t = o.transpose(rest + list(ax))
    shp = tuple(o.shape[i] for i in rest)
    t = t.reshape(shp + (-1,)) if o.size else t.reshape(
        shp + (int(np.prod([o.shape[i] for i in ax])),))
    w = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        w[i] = fold(list(t[i]))
    if keep:
        w = w.reshape(tuple(1 if i in ax else o.shape[i]
                            for i in range(o.ndim)))
    if w.ndim == 0:
        return w[()]
    return wrap(w, a.kind)


def _sum(kind):
    def g(xs):
        r = S(P.rf(0), None, "i" if kind == "b" else kind)
        for x in xs:
            r = r + x
        return r
    return g


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = mk_noc(a)
    if keepdims is np._NoValue:
        keepdims = False
    r = reduce_(a, axis, keepdims, _sum(a.kind))
    if dtype is not None:
        r = r.astype(dtype)
    return r


def f_prod(a, axis=None, keepdims=False):
    a = mk_noc(a)

    def g(xs):
        r = S(P.rf(1), None, "i" if a.kind == "b" else a.kind)
        for x in xs:
            r = r * x
        return r
    return reduce_(a, axis, keepdims, g)


def f_mean(a, axis=None, keepdims=False):
    a = mk_noc(a)
    n = 1
    for i in axes_of(a, axis):
        n *= a.shape[i]
    return f_sum(a, axis, None, None, keepdims) / float(n)


def f_var(a, axis=None, ddof=0, keepdims=False):
    a = mk_noc(a)
    n = 1
    for i in axes_of(a, axis):
        n *= a.shape[i]
    m = f_mean(a, axis, True)
    d = a - m
    return f_sum((d * np.conjugate(d)).real, axis, None, None, keepdims) / \
        float(n - ddof)


def f_all(a, axis=None, keepdims=False):
    a = mk_noc(a)
    return reduce_(a, axis, keepdims, lambda xs: b_and(*xs) if xs else True)


def f_any(a, axis=None, keepdims=False):
    a = mk_noc(a)
    return reduce_(a, axis, keepdims, lambda xs: b_or(*xs) if xs else False)


def extremum(xs, sgn):
    r = xs[0]
    for x in xs[1:]:
        r = _max(r, x) if sgn > 0 else _min(r, x)
    return r


class SExt(S):
    """largest (smallest) of several numbers; compared with a bound through
    the numbers, so that which of them it is stays open"""
    __slots__ = ("xs", "sgn", "val")

    def __init__(self, xs, sgn):
        self.xs, self.sgn, self.val = list(xs), sgn, None
        self.kind = "f"

    def _get(self):
        if self.val is None:
            self.val = extremum(self.xs, self.sgn)
        return self.val

    re = property(lambda self: self._get().re)
    im = property(lambda self: None)

    def _all(self, f, o, every):
        if self.val is not None or isinstance(o, SExt):
            return f(self._get(), o)
        c = co(o)
        if c is None or isinstance(c, SInf):
            return f(self._get(), o)
        return (b_and if every else b_or)(*[f(x, o) for x in self.xs])

    def __lt__(self, o):
        return self._all(lambda x, o: x < o, o, self.sgn > 0)

    def __le__(self, o):
        return self._all(lambda x, o: x <= o, o, self.sgn > 0)

    def __gt__(self, o):
        return self._all(lambda x, o: x > o, o, self.sgn < 0)

    def __ge__(self, o):
        return self._all(lambda x, o: x >= o, o, self.sgn < 0)


def f_minmax(a, axis=None, keepdims=False, sgn=1):
    a = mk_noc(a)

    def g(xs):
        if len(xs) > 2 and all(isinstance(x, S) and x.kind == "f"
                               for x in xs) and any(
                                   x.const() is None for x in xs):
            return SExt(xs, sgn)
        return extremum(xs, sgn)
    if a.size == 0:
        raise ValueError("zero-size array to reduction operation")
    return reduce_(a, axis, keepdims, g)


def f_arg(a, axis, sgn):
    a = mk_noc(a)

    def g(xs):
        j = 0
        for i in range(1, len(xs)):
            if bool(xs[i] > xs[j] if sgn > 0 else xs[i] < xs[j]):
                j = i
        return S(P.rf(j), None, "i")
    return reduce_(a, axis, False, g)


def f_sort(a, axis=-1, **k):
    a = mk_noc(a)
    o = a.obj().copy()
    o = np.moveaxis(o, axis, -1)
    for i in np.ndindex(*o.shape[:-1]):
        xs = list(o[i])
        for m in range(1, len(xs)):
            j = m
            while j > 0 and bool(xs[j] < xs[j - 1]):
                xs[j], xs[j - 1] = xs[j - 1], xs[j]
                j -= 1
        for j, x in enumerate(xs):
            o[i + (j,)] = x
    return mkobj(np.array(np.moveaxis(o, -1, axis), dtype=object), a.kind)


def f_argsort(a, axis=-1, **k):
    a = mk_noc(a)
    if a.ndim != 1:
        raise Unsupported("argsort")
    xs = list(enumerate(a.obj()))
    for m in range(1, len(xs)):
        j = m
        while j > 0 and bool(xs[j][1] < xs[j - 1][1]):
            xs[j], xs[j - 1] = xs[j - 1], xs[j]
            j -= 1
    return np.array([i for i, _ in xs])


def f_trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    a = mk_noc(a)
    if a.ndim < 2:
        raise ValueError("diag requires an array of at least two dimensions")
    d = np.diagonal(a.obj(), offset, axis1, axis2)
    return f_sum(mkobj(np.array(d, dtype=object), a.kind), -1)


def f_matmul(x, y, **k):
    a, b = mk_noc(x), mk_noc(y)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough "
                         "dimensions")
    A, B = a.obj(), b.obj()
    s1 = A.ndim == 1
    s2 = B.ndim == 1
    if s1:
        A = A[None, :]
    if s2:
        B = B[:, None]
    if A.shape[-1] != B.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core "
                         "dimension 0 (size %d is different from %d)" %
                         (B.shape[-2], A.shape[-1]))
    batch = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, batch + A.shape[-2:])
    B = np.broadcast_to(B, batch + B.shape[-2:])
    n, m, q = A.shape[-2], A.shape[-1], B.shape[-1]
    kind = kmax(a.kind, b.kind)
    w = np.empty(batch + (n, q), dtype=object)
    z = S(P.rf(0), None, "i" if kind == "b" else kind)
    for t in np.ndindex(*batch):
        At, Bt = A[t], B[t]
        for i in range(n):
            for j in range(q):
                acc = z
                for l in range(m):
                    x_, y_ = At[i, l], Bt[l, j]
                    if x_.is_zero() or y_.is_zero():
                        continue
                    acc = acc + x_ * y_
                w[t + (i, j)] = acc
    if s1:
        w = w[..., 0, :]
    if s2:
        w = w[..., 0]
    if w.ndim == 0:
        return w[()] if isinstance(w, np.ndarray) else w
    return mkobj(w, kind)


def f_dot(x, y, out=None):
    a, b = mk_noc(x), mk_noc(y)
    if a.ndim == 0 or b.ndim == 0:
        return unwrap0(mk_noc(a * b))
    if a.ndim <= 2 and b.ndim <= 2:
        return f_matmul(a, b)
    if b.ndim == 1:
        return f_matmul(a, b)
    # sum over last of a and second-to-last of b
    return f_tensordot(a, b, ((a.ndim - 1,), (b.ndim - 2,)))


def f_tensordot(x, y, axes=2):
    a, b = mk_noc(x), mk_noc(y)
    try:
        iter(axes)
    except TypeError:
        n = int(axes)
        aa = list(range(a.ndim - n, a.ndim))
        bb = list(range(0, n))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, (int, np.integer)) else list(aa)
        bb = [bb] if isinstance(bb, (int, np.integer)) else list(bb)
    aa = [i % a.ndim if a.ndim else i for i in aa]
    bb = [i % b.ndim if b.ndim else i for i in bb]
    if len(aa) != len(bb) or any(a.shape[i] != b.shape[j]
                                 for i, j in zip(aa, bb)):
        raise ValueError("shape-mismatch for sum")
    ra = [i for i in range(a.ndim) if i not in aa]
    rb = [i for i in range(b.ndim) if i not in bb]
    sa, sb = [a.shape[i] for i in ra], [b.shape[i] for i in rb]
    n = int(np.prod([a.shape[i] for i in aa])) if aa else 1
    A = mkobj(a.obj().transpose(ra + aa).reshape(
        int(np.prod(sa)) if sa else 1, n), a.kind)
    B = mkobj(b.obj().transpose(bb + rb).reshape(
        n, int(np.prod(sb)) if sb else 1), b.kind)
    r = f_matmul(A, B)
    r = mkobj(r.obj().reshape(sa + sb), r.kind)
    return unwrap0(r)


def f_einsum(*ops, **kw):
    sub = ops[0]
    if not isinstance(sub, str):
        raise Unsupported("einsum operand form")
    arrs = [mk_noc(x) for x in ops[1:]]
    sub = sub.replace(" ", "")
    if "->" in sub:
        lhs, rhs = sub.split("->")
    else:
        lhs, rhs = sub, None
    terms = lhs.split(",")
    if len(terms) != len(arrs):
        raise ValueError("einsum: wrong number of operands")
    ell = 0
    for t, a in zip(terms, arrs):
        if "..." in t:
            ell = max(ell, a.ndim - (len(t) - 3))
    pool = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in sub]
    E = "".join(pool[:ell])
    nt = []
    for t, a in zip(terms, arrs):
        if "..." in t:
            n = a.ndim - (len(t) - 3)
            t = t.replace("...", E[len(E) - n:])
        nt.append(t)
    terms = nt
    if rhs is None:
        cnt = {}
        for t in terms:
            for c in t:
                cnt[c] = cnt.get(c, 0) + 1
        rhs = E + "".join(sorted(c for c in cnt if cnt[c] == 1
                                 and c not in E))
    else:
        rhs = rhs.replace("...", E)
    dims = {}
    for t, a in zip(terms, arrs):
        if len(t) != a.ndim:
            raise ValueError("einsum: operand has wrong number of dims")
        for c, n in zip(t, a.shape):
            if dims.get(c, 1) != 1 and n != 1 and dims[c] != n:
                raise ValueError("einsum: dimension mismatch")
            dims[c] = max(dims.get(c, 1), n)
    inner = [c for c in dims if c not in rhs]
    kind = kmax(*[a.kind for a in arrs])
    objs = [a.obj() for a in arrs]
    shape = tuple(dims[c] for c in rhs)
    w = np.empty(shape, dtype=object)
    for oi in np.ndindex(*shape):
        env = dict(zip(rhs, oi))
        acc = S(P.rf(0), None, kind)
        for ii in np.ndindex(*[dims[c] for c in inner]):
            env.update(zip(inner, ii))
            pr = None
            for t, o in zip(terms, objs):
                v = o[tuple(env[c] if o.shape[k] > 1 else 0
                            for k, c in enumerate(t))]
                pr = v if pr is None else pr * v
                if pr.is_zero():
                    break
            acc = acc + pr
        w[oi] = acc
    if w.ndim == 0:
        return w[()]
    return mkobj(w, kind)


# --------------------------------------------------------- linear algebra
def batched(f):
    def g(A, *rest):
        A = mk_noc(A)
        if A.ndim < 2 or A.shape[-1] != A.shape[-2]:
            raise np.linalg.LinAlgError(
                "Last 2 dimensions of the array must be square")
        if A.ndim == 2:
            return f(A, *rest)
        outs = {}
        for i in np.ndindex(*A.shape[:-2]):
            outs[i] = f(A[i], *rest)
        ex = next(iter(outs.values()))
        if isinstance(ex, tuple):
            return tuple(stackd({i: o[j] for i, o in outs.items()},
                                A.shape[:-2]) for j in range(len(ex)))
        return stackd(outs, A.shape[:-2])
    return g


def stackd(outs, shape):
    ex = mk_noc(next(iter(outs.values())))
    w = np.empty(tuple(shape) + ex.shape, dtype=object)
    for i, o in outs.items():
        o = to_obj(o)
        w[i] = o if o.ndim else o[()]
    return wrap(w)


def det_obj(M):
    n = M.shape[0]
    if n == 0:
        return S_(1.0)
    if n == 1:
        return M[0, 0]
    if n == 2:
        return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    r = None
    rows = list(range(1, n))
    for j in range(n):
        if M[0, j].is_zero():
            continue
        cols = [c for c in range(n) if c != j]
        t = M[0, j] * det_obj(M[np.ix_(rows, cols)])
        if j % 2:
            t = -t
        r = t if r is None else r + t
    return r if r is not None else S(P.rf(0), None, M[0, 0].kind)


@batched
def l_det(A):
    return det_obj(A.astype(float).obj() if A.kind in "bi" else A.obj())


@batched
def l_slogdet(A):
    A = mk_noc(A)
    if A.ndim > 2:
        sh = A.shape[:-2]
        sg, ld = np.empty(sh, dtype=object), np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            sg[i], ld[i] = map(S_, l_slogdet(A[i]))
        return mkobj(sg, "c" if A.kind == "c" else "f"), mkobj(ld, "f")
    d = l_det(A)
    if d.kind == "c":
        if d.im is None or P.is_zero_deep(im_(d)):
            s, l = S_(1.0), d.real
            if not bool(l > 0):
                s, l = S_(-1.0), -l
            return s.up("c"), l.log()
        q = d.real * d.real + d.imag * d.imag
        r = q.sqrt()
        return d / r, 0.5 * q.log()
    if bool(d > 0):
        return S_(1.0), d.log()
    return S_(-1.0), (-d).log()


def named(o):
    """large entries of an object array by name (option name_terms)"""
    lim = CTX[0].opts.get("name_terms") if CTX[0] is not None else None
    if not lim:
        return o
    w = np.empty(o.shape, dtype=object)
    b = len(P.K.vars)
    for i in np.ndindex(*o.shape):
        s = S_(o[i])
        w[i] = S(P.name_rf(s.re, lim, b), None if s.im is None else
                 P.name_rf(s.im, lim, b), s.kind)
    return w


def inv_obj(M):
    n = M.shape[0]
    M = named(M)
    if n == 0:
        return M
    diag = all(M[i, j].is_zero() for i in range(n) for j in range(n)
               if i != j)
    w = np.empty((n, n), dtype=object)
    k = M[0, 0].kind
    if diag:
        for i in range(n):
            for j in range(n):
                w[i, j] = 1.0 / M[i, i] if i == j else S(P.rf(0), None, k)
        return w
    if n == 4:
        r = inv_block(M)
        if r is not None:
            return r
    d = det_obj(M)
    if d.is_zero():
        raise np.linalg.LinAlgError("Singular matrix")
    i_d = 1.0 / d
    for i in range(n):
        for j in range(n):
            rows = [r for r in range(n) if r != j]
            cols = [c for c in range(n) if c != i]
            m = det_obj(M[np.ix_(rows, cols)]) if n > 1 else S_(1.0)
            w[i, j] = (-m if (i + j) % 2 else m) * i_d
    return w


def inv_block(M):
    """Kronecker structured 4x4: (A kron B)^-1 = A^-1 kron B^-1"""
    B = M[:2, :2]
    piv = None
    for i in range(2):
        for j in range(2):
            if not B[i, j].is_zero():
                piv = (i, j)
                break
        if piv:
            break
    if piv is None:
        return None
    A = np.empty((2, 2), dtype=object)
    for i in range(2):
        for j in range(2):
            A[i, j] = M[2 * i + piv[0], 2 * j + piv[1]] / B[piv]
    for i in range(2):
        for j in range(2):
            for k in range(2):
                for l in range(2):
                    if not (M[2 * i + k, 2 * j + l] -
                            A[i, j] * B[k, l]).is_zero():
                        return None
    iA, iB = inv_obj(A), inv_obj(B)
    w = np.empty((4, 4), dtype=object)
    for i in range(2):
        for j in range(2):
            for k in range(2):
                for l in range(2):
                    w[2 * i + k, 2 * j + l] = iA[i, j] * iB[k, l]
    return w


@batched
def l_inv(A):
    if A.kind in "bi":
        A = A.astype(float)
    return wrap(inv_obj(A.obj()), A.kind)


def l_solve(A, b, *a, **k):
    A, b = mk_noc(A), mk_noc(b)
    iA = l_inv(A)
    if b.ndim == A.ndim - 1:
        return f_matmul(iA, b[..., None])[..., 0]
    return f_matmul(iA, b)


@batched
def l_cholesky(A):
    n = A.shape[0]
    M = A.obj()
    L = np.empty((n, n), dtype=object)
    z = S(P.rf(0), None, kmax(A.kind, "f"))
    for i in range(n):
        for j in range(n):
            if j > i:
                L[i, j] = z
                continue
            s = M[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k].conj()
            if i == j:
                re = s.real
                L[i, i] = re.sqrt().up(z.kind)
            else:
                L[i, j] = s / L[j, j]
    return mkobj(L, z.kind)


def mat_is_zero(o):
    return all(e.is_zero() for e in o.reshape(-1))


@batched
def l_eigh(A, *a, **k):
    return CTX[0].eigh(A)


def l_eigvalsh(A, *a, **k):
    return l_eigh(A)[0]


def big_norm(a):
    """Euclidean norm of an array whose squares would be too large to write
    out: a named nonnegative quantity (congruence on the entries)"""
    es = []
    for s in a.obj().reshape(-1):
        s = S_(s)
        if s.kind == "c":
            es += [s.re, s.im]
        else:
            es.append(s.re)
    es = [e for e in es if e.num]
    if getattr(CTX[0], "exact", False):
        return None
    if sum(len(e.num) ** 2 for e in es) < 600 and not any(
            e.den for e in es) or len(es) < 2:
        return None
    es = [P.rneg(e) if e.num[max(e.num)] < 0 else e for e in es]
    es.sort(key=lambda e: sorted((m, str(c)) for m, c in e.num.items()))
    return S(P.uf_atom("norm2", es, nonneg=True), None, "f")


P.UF_EVAL["norm2"] = lambda *x: math.sqrt(sum(v * v for v in x))


def l_norm(x, ord=None, axis=None, keepdims=False):
    a = mk_noc(x)
    if a.kind in "bi":
        a = a.astype(float)
    if ord in (None, "fro") or (ord == 2 and (
            a.ndim == 1 or isinstance(axis, (int, np.integer)))):
        if axis is None:
            r = big_norm(a)
            if r is not None:
                return r
        sq = umap(lambda s: S(P.radd(P.rmul(s.re, s.re),
                                     P.rmul(s.im, s.im)), None, "f")
                  if s.kind == "c" else s * s, a)
        if axis is None and ord == "fro" and a.ndim != 2:
            raise ValueError("Invalid norm order.")
        return np.sqrt(f_sum(sq, axis, None, None, keepdims))
    if ord == 1 and a.ndim == 1:
        return f_sum(abs(a))
    if ord == np.inf and a.ndim == 1:
        return f_minmax(abs(a))
    if ord in (2, -2) and a.ndim == 2 and axis is None:
        return S_(l_svdvals(a)[0 if ord == 2 else -1])
    raise Unsupported("norm order %r" % (ord,))


def l_qr(A, mode="reduced"):
    return CTX[0].qr(mk_noc(A))


def l_svd(a, full_matrices=True, compute_uv=True, *r, **k):
    if compute_uv:
        raise Unsupported("singular vectors")
    return l_svdvals(a)


def l_svdvals(a, *r, **k):
    """singular values, largest first"""
    a = mk_noc(a)
    h = a.conj().T
    g = f_matmul(h, a) if a.shape[0] >= a.shape[1] else f_matmul(a, h)
    d = list(l_eigh(g)[0].obj())
    for i in range(len(d)):
        for j in range(len(d) - 1 - i):
            if bool(d[j] < d[j + 1]):
                d[j], d[j + 1] = d[j + 1], d[j]
    o = np.empty(len(d), dtype=object)
    for i, e in enumerate(d):
        o[i] = e.sqrt()
    return mkobj(o, "f")


def l_pinv(A, *a, **k):
    return l_inv(A)


def l_matrix_power(A, n):
    A = mk_noc(A)
    if n < 0:
        return l_matrix_power(l_inv(A), -n)
    r = mk(np.eye(A.shape[0]))
    for _ in range(n):
        r = f_matmul(r, A)
    return r


def l_multi_dot(arrs, **k):
    r = arrs[0]
    for a in arrs[1:]:
        r = f_dot(r, a)
    return r


# ------------------------------------------------------- function dispatch
def f_like(const):
    def g(a, dtype=None, order="K", subok=True, shape=None, **kw):
        a = mk_noc(a)
        kind = a.kind if dtype is None else kind_of_dtype(dtype)
        return full(a.shape if shape is None else shape, const, kind)
    return g


def full(shape, const, kind):
    if isinstance(shape, (int, np.integer, S)):
        shape = (shape.__index__(),)
    shape = tuple(s.__index__() for s in shape)
    if kind == "b":
        w = np.empty(shape, dtype=object)
        w[...] = bool(const)
        return mkobj(w, "b")
    w = np.empty(shape, dtype=object)
    s = store(S_(const), kind)
    for i in np.ndindex(*shape):
        w[i] = s
    return mkobj(w, kind)


def f_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    a = mk_noc(a)
    kind = a.kind if dtype is None else kind_of_dtype(dtype)
    return full(a.shape if shape is None else shape, fill_value, kind)


def f_where(c, *xy):
    c = mk_noc(c)
    if c.kind != "b":
        c = c != 0
    m = concretize_mask(mk_noc(c))
    if not xy:
        return np.where(m)
    x, y = [mk_noc(v) for v in xy]
    shape = np.broadcast_shapes(m.shape, x.shape, y.shape)
    X, Y, M = (np.broadcast_to(x.obj(), shape), np.broadcast_to(
        y.obj(), shape), np.broadcast_to(m, shape))
    w = np.empty(shape, dtype=object)
    k = kmax(x.kind, y.kind)
    for i in np.ndindex(*shape):
        w[i] = store(X[i] if M[i] else Y[i], k)
    return mkobj(w, k) if shape else w[()]


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = mk_noc(a), mk_noc(b)
    return abs(a - b) <= S_(atol) + S_(rtol) * abs(b)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_all(mk_noc(f_isclose(a, b, rtol, atol)))
    return bool(r)


def f_array_equal(a, b, equal_nan=False):
    a, b = mk_noc(a), mk_noc(b)
    if a.shape != b.shape:
        return False
    return bool(f_all(mk_noc(a == b)))


def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None,
          aweights=None, dtype=None):
    if y is not None or fweights is not None or aweights is not None:
        raise Unsupported("cov weights")
    X = mk_noc(m)
    if X.ndim == 1:
        X = X[None, :]
    if not rowvar and X.shape[0] != 1:
        X = X.T
    if ddof is None:
        ddof = 0 if bias else 1
    n = X.shape[1]
    X = X - f_mean(X, 1, True)
    c = f_matmul(X, X.T.conj()) / float(n - ddof)
    return np.squeeze(c)


def f_kron(a, b):
    a, b = mk_noc(a), mk_noc(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim != b.ndim:
        raise Unsupported("kron of different ranks")
    A, B = a.obj(), b.obj()
    shape = tuple(x * y for x, y in zip(A.shape, B.shape))
    w = np.empty(shape, dtype=object)
    for i in np.ndindex(*A.shape):
        for j in np.ndindex(*B.shape):
            w[tuple(x * B.shape[k] + y for k, (x, y) in
                    enumerate(zip(i, j)))] = A[i] * B[j]
    return mkobj(w, kmax(a.kind, b.kind))


def f_average(a, axis=None, weights=None, returned=False, **k):
    a = mk_noc(a)
    if weights is None:
        r = f_mean(a, axis)
        if returned:
            raise Unsupported("average returned")
        return r
    w = mk_noc(weights)
    if w.ndim != a.ndim:
        shp = [1] * a.ndim
        shp[axis] = -1
        w = w.reshape(shp)
    r = f_sum(a * w, axis) / f_sum(w + a * 0, axis)
    if returned:
        raise Unsupported("average returned")
    return r


def f_clip(a, lo=None, hi=None, out=None, **k):
    r = mk_noc(a)
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return unwrap0(r)


def f_copyto(dst, src, **k):
    dst[...] = src


def f_nan_to_num(x, *a, **k):
    return x


def f_vdot(a, b):
    a, b = mk_noc(a), mk_noc(b)
    return f_sum(np.conjugate(a.reshape(-1)) * b.reshape(-1))


def f_real(a):
    return a.real if hasattr(a, "real") else mk(a).real


def f_imag(a):
    return a.imag if hasattr(a, "imag") else mk(a).imag


def f_iscomplexobj(x):
    return mk_noc(x).kind == "c"


def f_isreal(x):
    x = mk_noc(x)
    return x.imag == 0


def f_iscomplex(x):
    x = mk_noc(x)
    return x.imag != 0


def f_diff(a, n=1, axis=-1):
    a = mk_noc(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = list(s1)
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


def f_fill_diagonal(a, val, wrap=False):
    n = min(a.shape)
    v = to_obj(val)
    for i in range(n):
        a[(i,) * a.ndim] = v[()] if v.ndim == 0 else v[i % len(v)]


def f_count_nonzero(a, axis=None, **k):
    a = mk_noc(a)
    m = concretize_mask(mk_noc(a if a.kind == "b" else a != 0))
    return np.count_nonzero(m, axis=axis)


def lex_lt(x, y):
    """numpy's order: real part, then imaginary part"""
    if x.kind != "c":
        return bool(x < y)
    if bool(x.real < y.real):
        return True
    if bool(y.real < x.real):
        return False
    return bool(x.imag < y.imag)


def f_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = mk_noc(a)
    if a.kind in "bi":
        a = a.astype(float)
    if axis is None:
        a, axis = a.reshape(-1), 0
    o = np.moveaxis(a.obj(), axis, -1)
    n = o.shape[-1]
    r = np.empty(o.shape[:-1], dtype=object)
    for i in np.ndindex(*r.shape):
        xs = [S_(x) for x in o[i]]
        if n > 2:
            for m in range(1, n):
                j = m
                while j > 0 and lex_lt(xs[j], xs[j - 1]):
                    xs[j], xs[j - 1] = xs[j - 1], xs[j]
                    j -= 1
        r[i] = xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) * 0.5
    r = mkobj(r, a.kind)
    if keepdims:
        r = r[(Ellipsis, None)] if axis in (-1, a.ndim - 1) else \
            mkobj(np.expand_dims(r.obj(), axis), a.kind)
    return r[()] if r.ndim == 0 else r


def f_result_type(*a):
    ks = []
    for x in a:
        if is_sym(x):
            ks.append(DTYPES[mk_noc(x).kind])
        else:
            ks.append(x)
    return np.result_type(*ks)


def f_apply_along_axis(func1d, axis, arr, *args, **kw):
    a = mk_noc(arr)
    axis %= a.ndim
    rest = [s for i, s in enumerate(a.shape) if i != axis]
    outs = {}
    for i in np.ndindex(*rest):
        ix = list(i)
        ix.insert(axis, slice(None))
        outs[i] = func1d(a[tuple(ix)], *args, **kw)
    r = stackd(outs, rest)
    if r.ndim > len(rest):
        r = np.moveaxis(r, -1, axis)
    return r


def f_linalg_cond(*a, **k):
    raise Unsupported("condition number")


FUN = {
    np.sum: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k:
        f_sum(a, axis, dtype, out, keepdims),
    np.prod: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k:
        f_prod(a, axis, keepdims),
    np.mean: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k:
        f_mean(a, axis, keepdims),
    np.var: lambda a, axis=None, dtype=None, out=None, ddof=0,
        keepdims=False, **k: f_var(a, axis, ddof, keepdims),
    np.std: lambda a, axis=None, dtype=None, out=None, ddof=0,
        keepdims=False, **k: np.sqrt(f_var(a, axis, ddof, keepdims)),
    np.all: lambda a, axis=None, out=None, keepdims=False, **k:
        f_all(a, axis, keepdims),
    np.any: lambda a, axis=None, out=None, keepdims=False, **k:
        f_any(a, axis, keepdims),
    np.amax: lambda a, axis=None, out=None, keepdims=False, **k:
        f_minmax(a, axis, keepdims, 1),
    np.amin: lambda a, axis=None, out=None, keepdims=False, **k:
        f_minmax(a, axis, keepdims, -1),
    np.argmax: lambda a, axis=None, **k: f_arg(a, axis, 1),
    np.argmin: lambda a, axis=None, **k: f_arg(a, axis, -1),
    np.sort: f_sort, np.argsort: f_argsort,
    np.trace: f_trace, np.dot: f_dot, np.matmul: f_matmul,
    np.tensordot: f_tensordot, np.einsum: f_einsum, np.kron: f_kron,
    np.inner: lambda a, b: f_tensordot(a, b, ((-1,), (-1,))) if
        mk_noc(a).ndim and mk_noc(b).ndim else mk_noc(a) * b,
    np.outer: lambda a, b, out=None: np.multiply.outer(
        mk_noc(a).reshape(-1), mk_noc(b).reshape(-1)),
    np.vdot: f_vdot, np.where: f_where, np.isclose: f_isclose,
    np.allclose: f_allclose, np.array_equal: f_array_equal, np.cov: f_cov,
    np.average: f_average, np.clip: f_clip, np.copyto: f_copyto,
    np.real: f_real, np.imag: f_imag, np.iscomplexobj: f_iscomplexobj,
    np.isrealobj: lambda x: not f_iscomplexobj(x), np.isreal: f_isreal,
    np.iscomplex: f_iscomplex, np.nan_to_num: f_nan_to_num,
    np.real_if_close: lambda a, tol=100: a,
    np.zeros_like: f_like(0), np.ones_like: f_like(1),
    np.empty_like: f_like(0), np.full_like: f_full_like,
    np.diff: f_diff, np.fill_diagonal: f_fill_diagonal,
    np.count_nonzero: f_count_nonzero, np.median: f_median,
    np.nonzero: lambda a: mk_noc(a).nonzero(),
    np.result_type: f_result_type,
    np.apply_along_axis: f_apply_along_axis,
    np.ndim: lambda a: mk_noc(a).ndim,
    np.shape: lambda a: mk_noc(a).shape,
    np.size: lambda a, axis=None: mk_noc(a).size if axis is None
        else mk_noc(a).shape[axis],
    np.copy: lambda a, order="K", subok=False: mk(a),
    np.linalg.det: l_det, np.linalg.inv: l_inv, np.linalg.solve: l_solve,
    np.linalg.slogdet: l_slogdet, np.linalg.cholesky: l_cholesky,
    np.linalg.eigh: lambda a, UPLO="L": l_eigh(a),
    np.linalg.eigvalsh: lambda a, UPLO="L": l_eigvalsh(a),
    np.linalg.norm: l_norm, np.linalg.qr: l_qr, np.linalg.pinv: l_pinv,
    np.linalg.matrix_power: l_matrix_power,
    np.linalg.multi_dot: l_multi_dot, np.linalg.svd: l_svd,
    np.linalg.cond: f_linalg_cond,
}

# structural functions: run numpy's implementation on the object storage
STRUCT = [np.concatenate, np.hstack, np.vstack, np.dstack, np.stack,
          np.column_stack, np.block, np.reshape, np.ravel, np.transpose,
          np.swapaxes, np.moveaxis, np.rollaxis, np.squeeze, np.expand_dims,
          np.atleast_1d, np.atleast_2d, np.atleast_3d, np.tile, np.repeat,
          np.diag, np.diagonal, np.diagflat, np.tril, np.triu,
          np.take, np.broadcast_to, np.broadcast_arrays, np.flip, np.fliplr,
          np.flipud, np.roll, np.rot90, np.split, np.array_split, np.hsplit,
          np.vsplit, np.append, np.insert, np.delete, np.cumsum,
          np.take_along_axis, np.compress, np.resize, np.pad, np.choose]
STRUCT = {f for f in STRUCT}


def conv(x):
    if isinstance(x, (SymArray, S, SymBool)):
        return to_obj(x)
    if isinstance(x, list):
        return [conv(e) for e in x]
    if isinstance(x, tuple):
        return tuple(conv(e) for e in x)
    return x


def conv_seq(x):
    """array sequences: concrete members become object arrays as well"""
    if isinstance(x, (list, tuple)):
        return [conv_seq(e) for e in x]
    return to_obj(x)


def rewrap(r, kind=None):
    if isinstance(r, np.ndarray) and r.dtype == object:
        if r.ndim == 0:
            e = r[()]
            return mk0(e)
        return wrap(r, kind)
    if isinstance(r, list):
        return [rewrap(e, kind) for e in r]
    if isinstance(r, tuple):
        return tuple(rewrap(e, kind) for e in r)
    return r


SEQ = {np.concatenate, np.hstack, np.vstack, np.dstack, np.stack,
       np.column_stack, np.block}
VIEWS = {np.reshape, np.ravel, np.transpose, np.swapaxes, np.moveaxis,
         np.rollaxis, np.squeeze, np.expand_dims, np.atleast_1d,
         np.atleast_2d, np.atleast_3d, np.diagonal, np.broadcast_to, np.flip,
         np.fliplr, np.flipud, np.split, np.array_split, np.diag}


def do_function(func, args, kw):
    f = FUN.get(func)
    if f is not None:
        return f(*args, **kw)
    if func in STRUCT:
        impl = getattr(func, "__wrapped__", None)
        if func in SEQ:
            a = (conv_seq(args[0]),) + tuple(args[1:])
            if func is np.block:
                return rewrap(blockimpl(a[0]))
            call = func if impl is None else impl
            return rewrap(call(*a, **kw))
        a = conv(tuple(args))
        k2 = {k: conv(v) for k, v in kw.items()}
        kind = None
        if isinstance(args[0], SymArray):
            kind = args[0].kind
        if func in (np.tril, np.triu):
            m = mk_noc(args[0])
            k = kw.get("k", args[1] if len(args) > 1 else 0)
            mask = np.tri(m.shape[-2], m.shape[-1], k=k if func is np.tril
                          else k - 1, dtype=bool)
            if func is np.triu:
                mask = ~mask
            w = m.copy()
            z = S(P.rf(0), None, m.kind)
            o = w.obj()
            for i in np.ndindex(*o.shape):
                if not mask[i[-2:]]:
                    o[i] = z
            return w
        if func in (np.diag, np.diagflat) and (
                func is np.diagflat or a[0].ndim == 1):
            v = a[0].reshape(-1)
            k = kw.get("k", args[1] if len(args) > 1 else 0)
            n = len(v) + abs(k)
            w = full((n, n), 0, mk_noc(args[0]).kind)
            o = w.obj()
            for i, e in enumerate(v):
                o[i + max(0, -k), i + max(0, k)] = e
            return w
        call = func if impl is None else impl
        r = call(*a, **k2)
        if isinstance(r, np.ndarray) and kind is not None and \
                func in VIEWS and r.dtype == object:
            return mkobj(r, kind)
        return rewrap(r, kind)
    raise Unsupported("numpy function " + getattr(func, "__name__",
                                                  repr(func)))


def blockimpl(x):
    if not isinstance(x, list):
        return x
    def rec(e, depth):
        if isinstance(e, list):
            return np.concatenate([rec(v, depth + 1) for v in e],
                                  axis=-(maxd - depth))
        if e.ndim < maxd:
            e = e.reshape((1,) * (maxd - e.ndim) + e.shape)
        return e

    def dep(e):
        return 1 + max(dep(v) for v in e) if isinstance(e, list) else 0
    maxd = dep(x)
    maxd0 = maxd

    def nd(e):
        return max(nd(v) for v in e) if isinstance(e, list) else e.ndim
    tot = max(maxd0, nd(x))

    def rec2(e, depth):
        if isinstance(e, list):
            return np.concatenate([rec2(v, depth + 1) for v in e],
                                  axis=-(maxd0 - depth))
        return e.reshape((1,) * (tot - e.ndim) + e.shape)
    return rec2(x, 0)
